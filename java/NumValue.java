import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import util.Assert;

/** A TLC value holding an IEEE double.  It behaves as an atomic value; it is only ever
 *  created and compared by the operators of module Num. */
public final class NumValue extends Value {
    public final double d;
    public NumValue(double d) { this.d = d == 0.0 ? 0.0 : d; }
    static double parse(String s) {
        switch (s) {
            case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
            case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
            case "nan": case "NaN": return Double.NaN;
            default: return Double.parseDouble(s);
        }
    }
    public static double of(Value v) {
        if (v instanceof NumValue) return ((NumValue) v).d;
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new RuntimeException("not a number: " + v);
    }
    @Override public byte getKind() { return STRINGVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof NumValue) return Double.compare(d, ((NumValue) o).d);
        if (o instanceof StringValue) return Double.compare(d, of((Value) o));
        if (o instanceof ModelValue) return ((ModelValue) o).modelValueCompareTo(this);
        throw new RuntimeException("cannot compare number " + d + " with " + o);
    }
    @Override public boolean equals(Object o) {
        if (o instanceof NumValue) return d == ((NumValue) o).d;
        if (o instanceof StringValue) { try { return d == of((Value) o); } catch (NumberFormatException e) { return false; } }
        if (o instanceof ModelValue) return ((ModelValue) o).modelValueEquals(this);
        return false;
    }
    @Override public boolean member(Value e) { throw new RuntimeException("a number is not a set"); }
    @Override public boolean isFinite() { throw new RuntimeException("a number is not a set"); }
    @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on number"); return ex.value; }
    @Override public Value takeExcept(ValueExcept[] exs) { throw new RuntimeException("EXCEPT on number"); }
    @Override public int size() { throw new RuntimeException("a number is not a set"); }
    @Override public boolean mutates() { return false; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public void deepNormalize() { }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void write(IValueOutputStream vos) throws java.io.IOException { new StringValue(Double.toString(d)).write(vos); }
    @Override public long fingerPrint(long fp) {
        long b = Double.doubleToLongBits(d);
        fp = FP64.Extend(fp, (int) b);
        return FP64.Extend(fp, (int) (b >>> 32));
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int o, boolean q) { return sb.append(d); }
}
