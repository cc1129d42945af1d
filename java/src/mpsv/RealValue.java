package mpsv;

import java.io.IOException;
import tlc2.tool.impl.Tool;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import util.Assert;

/**
 * A TLC value for one real number, kept as an IEEE double. It is the model of TLA+'s Real in the
 * specifications under /verif/spec (module Real64): TLC itself has no reals.
 */
public final class RealValue extends Value {
    private static final long serialVersionUID = 1L;
    public final double d;

    public RealValue(double d) {
        this.d = d == 0.0 ? 0.0 : d; // one zero
    }

    @Override public byte getKind() { return REALVALUE; }

    @Override public int compareTo(Object o) {
        if (o instanceof RealValue) return Double.compare(d, ((RealValue) o).d);
        if (o instanceof ModelValue) return ((ModelValue) o).modelValueCompareTo(this);
        Assert.fail("Attempted to compare the real " + this + " with non-real " + o);
        return 0;
    }

    @Override public boolean equals(Object o) {
        if (o instanceof RealValue) return Double.compare(d, ((RealValue) o).d) == 0;
        if (o instanceof ModelValue) return ((ModelValue) o).modelValueEquals(this);
        Assert.fail("Attempted to compare the real " + this + " with non-real " + o);
        return false;
    }

    @Override public boolean member(Value elem) { Assert.fail("not a set: " + this); return false; }
    @Override public boolean isFinite() { Assert.fail("not a set: " + this); return false; }
    @Override public Value takeExcept(ValueExcept ex) {
        if (ex.idx < ex.path.length) Assert.fail("EXCEPT on real " + this);
        return ex.value;
    }
    @Override public Value takeExcept(ValueExcept[] exs) { Assert.fail("EXCEPT on real " + this); return this; }
    @Override public int size() { Assert.fail("size of real " + this); return 0; }
    @Override public boolean mutates() { return false; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void write(IValueOutputStream vos) throws IOException {
        throw new IOException("reals are not spilled to disk; run TLC with an in-memory state queue");
    }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, (int) REALVALUE);
        return FP64.Extend(fp, Double.doubleToLongBits(d));
    }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(Double.toString(d)); }
}
