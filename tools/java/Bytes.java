// Fast evaluation of the operators of spec/Bytes.tla for TLC.  The TLA+ definitions remain the
// meaning; spec/BytesCheck.tla compares both (see tools/vlib.py selftest).
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.util.*;

public class Bytes {
	static final TupleValue EMPTY = new TupleValue(new Value[0]);

	static int[] runs(Value v) {
		TupleValue t = (TupleValue) v.toTuple();
		int[] r = new int[t.elems.length];
		for (int i = 0; i < r.length; ++i) r[i] = ((IntValue) t.elems[i]).val;
		return r;
	}
	static final class Buf {
		int[] a = new int[16]; int n = 0;
		void put(int run) {
			if (run < 256) return;
			if (n > 0 && (a[n - 1] & 255) == (run & 255)) { a[n - 1] += run - (run & 255); return; }
			if (n == a.length) a = Arrays.copyOf(a, 2 * n);
			a[n++] = run;
		}
		Value value() {
			if (n == 0) return EMPTY;
			Value[] e = new Value[n];
			for (int i = 0; i < n; ++i) e[i] = IntValue.gen(a[i]);
			return new TupleValue(e);
		}
	}
	static int size(int[] x) { int s = 0; for (int r : x) s += r >>> 8; return s; }

	public static Value Size(Value x) { return IntValue.gen(size(runs(x))); }
	public static Value Cat(Value x, Value y) {
		Buf b = new Buf();
		int[] p = runs(x), q = runs(y);
		b.a = Arrays.copyOf(p, p.length + q.length + 1); b.n = p.length;
		for (int r : q) b.put(r);
		return b.value();
	}
	public static Value Put(Value x, Value c, Value n) {
		Buf b = new Buf();
		int[] p = runs(x);
		b.a = Arrays.copyOf(p, p.length + 1); b.n = p.length;
		b.put(((IntValue) c).val + 256 * ((IntValue) n).val);
		return b.value();
	}
	public static Value Take(Value x, Value nv) {
		int n = ((IntValue) nv).val; Buf b = new Buf();
		for (int r : runs(x)) {
			if (n <= 0) break;
			int k = Math.min(n, r >>> 8);
			b.put((r & 255) + 256 * k); n -= k;
		}
		return b.value();
	}
	public static Value Drop(Value x, Value nv) {
		int n = ((IntValue) nv).val; Buf b = new Buf();
		for (int r : runs(x)) {
			int k = Math.min(n, r >>> 8);
			n -= k;
			b.put(r - 256 * k);
		}
		return b.value();
	}
	public static Value Canon(Value x) { Buf b = new Buf(); for (int r : runs(x)) b.put(r); return b.value(); }
	public static Value Lower(Value x) {
		Buf b = new Buf();
		for (int r : runs(x)) { int c = r & 255; b.put(c >= 65 && c <= 90 ? r + 32 : r); }
		return b.value();
	}
	public static Value FindByte(Value x, Value bv) {
		int c = ((IntValue) bv).val, n = 0;
		for (int r : runs(x)) { if ((r & 255) == c) return IntValue.gen(n); n += r >>> 8; }
		return IntValue.gen(-1);
	}
	public static Value SplitByte(Value x, Value bv) {
		int c = ((IntValue) bv).val;
		ArrayList<Value> out = new ArrayList<Value>();
		Buf cur = new Buf();
		for (int r : runs(x)) {
			if ((r & 255) == c) {
				out.add(cur.value()); cur = new Buf();
				for (int i = 1; i < (r >>> 8); ++i) out.add(EMPTY);
			} else cur.put(r);
		}
		out.add(cur.value());
		return new TupleValue(out.toArray(new Value[0]));
	}
	public static Value Expand(Value x) {
		int[] p = runs(x); Value[] e = new Value[size(p)]; int k = 0;
		for (int r : p) for (int i = 0; i < (r >>> 8); ++i) e[k++] = IntValue.gen(r & 255);
		return new TupleValue(e);
	}
	public static Value FromList(Value l) {
		Buf b = new Buf();
		for (int c : runs(l)) b.put(c + 256);
		return b.value();
	}
	public static Value IsPrefixOf(Value pv, Value xv) {
		int[] p = runs(pv), x = runs(xv);
		if (p.length == 0) return BoolValue.ValTrue;
		if (x.length < p.length) return BoolValue.ValFalse;
		for (int i = 0; i < p.length - 1; ++i) if (p[i] != x[i]) return BoolValue.ValFalse;
		int i = p.length - 1;
		return ((p[i] & 255) == (x[i] & 255) && (p[i] >>> 8) <= (x[i] >>> 8)) ? BoolValue.ValTrue : BoolValue.ValFalse;
	}
	public static Value FindText(Value xv, Value pv) {
		int[] x = runs(xv), p = runs(pv);
		int m = size(p);
		byte[] pat = new byte[m]; int k = 0;
		for (int r : p) for (int i = 0; i < (r >>> 8); ++i) pat[k++] = (byte) (r & 255);
		if (m == 0) return IntValue.gen(0);
		// candidates start inside the run that can hold the first run of the pattern
		int off = 0;
		for (int i = 0; i < x.length; ++i) {
			int len = x[i] >>> 8;
			if (p.length == 1) {
				if ((x[i] & 255) == (p[0] & 255) && len >= m) return IntValue.gen(off);
			} else if ((x[i] & 255) == (p[0] & 255) && len >= (p[0] >>> 8) && i + p.length <= x.length) {
				boolean ok = true;
				for (int j = 1; ok && j < p.length - 1; ++j) ok = x[i + j] == p[j];
				int l = p.length - 1;
				ok = ok && (x[i + l] & 255) == (p[l] & 255) && (x[i + l] >>> 8) >= (p[l] >>> 8);
				if (ok) return IntValue.gen(off + len - (p[0] >>> 8));
			}
			off += len;
		}
		return IntValue.gen(-1);
	}
	public static Value B(Value s) {
		Buf b = new Buf();
		for (byte c : ((StringValue) s).val.toString().getBytes(java.nio.charset.StandardCharsets.ISO_8859_1)) b.put((c & 255) + 256);
		return b.value();
	}

	// ---- automata -------------------------------------------------------------------------
	static final class Table { HashMap<String, String[]> rows = new HashMap<String, String[]>(); }
	static final Map<Value, Table> cache = Collections.synchronizedMap(new IdentityHashMap<Value, Table>());
	static Table table(Value f) {
		Table t = cache.get(f);
		if (t != null) return t;
		t = new Table();
		FcnRcdValue fr = (FcnRcdValue) f.toFcnRcd();
		fr.normalize();
		Value[] dom = fr.getDomainAsValues();
		for (int i = 0; i < dom.length; ++i) {
			FcnRcdValue row = (FcnRcdValue) fr.values[i].toFcnRcd();
			String[] r = new String[256];
			for (int b = 0; b < 256; ++b) r[b] = ((StringValue) row.select(IntValue.gen(b))).val.toString();
			t.rows.put(((StringValue) dom[i]).val.toString(), r);
		}
		cache.put(f, t);
		return t;
	}
	public static Value Scan(Value delta, Value target, Value q0, Value x) {
		Table d = table(delta), t = table(target);
		String q = ((StringValue) q0).val.toString();
		ArrayList<Value> out = new ArrayList<Value>();
		Buf cur = new Buf(); String curT = "-";
		int n = 0;
		scan:
		for (int r : runs(x)) {
			int b = r & 255, k = r >>> 8;
			while (k > 0) {
				if (q.equals("done") || q.equals("bad")) break scan;
				String nq = d.rows.get(q)[b], tg = t.rows.get(q)[b];
				if (nq.equals("bad")) { q = nq; break scan; }
				int take = nq.equals(q) ? k : 1;
				n += take; k -= take; q = nq;
				if (!tg.equals(curT)) {
					if (!curT.equals("-")) out.add(new TupleValue(new Value[] { new StringValue(curT), cur.value() }));
					cur = new Buf(); curT = tg;
				}
				if (!tg.equals("-")) cur.put(b + 256 * take);
			}
		}
		if (!curT.equals("-")) out.add(new TupleValue(new Value[] { new StringValue(curT), cur.value() }));
		return new RecordValue(new UniqueString[] { UniqueString.uniqueStringOf("n"), UniqueString.uniqueStringOf("out"), UniqueString.uniqueStringOf("q") },
			new Value[] { IntValue.gen(n), new TupleValue(out.toArray(new Value[0])), new StringValue(q) }, false);
	}
}
