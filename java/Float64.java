import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Elementary IEEE double operations for the TLA+ module Float64 (see there). */
public class Float64 {
    private static double d(final Value v) {
        final String s = ((StringValue) v).val.toString();
        switch (s) {
        case "inf": return Double.POSITIVE_INFINITY;
        case "-inf": return Double.NEGATIVE_INFINITY;
        case "nan": return Double.NaN;
        default: return Double.parseDouble(s);
        }
    }

    private static Value s(final double x) {
        if (Double.isNaN(x)) return new StringValue("nan");
        if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
        return new StringValue(Double.toString(x));
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value FAdd(final Value a, final Value b) { return s(d(a) + d(b)); }
    public static Value FSub(final Value a, final Value b) { return s(d(a) - d(b)); }
    public static Value FMul(final Value a, final Value b) { return s(d(a) * d(b)); }
    public static Value FDiv(final Value a, final Value b) { return s(d(a) / d(b)); }
    public static Value FPow(final Value a, final Value b) { return s(Math.pow(d(a), d(b))); }
    public static Value FSqrt(final Value a) { return s(Math.sqrt(d(a))); }
    public static Value FExp(final Value a) { return s(Math.exp(d(a))); }
    public static Value FLn(final Value a) { return s(Math.log(d(a))); }
    public static Value FLog10(final Value a) { return s(Math.log10(d(a))); }
    public static Value FSin(final Value a) { return s(Math.sin(d(a))); }
    public static Value FCos(final Value a) { return s(Math.cos(d(a))); }
    public static Value FAbs(final Value a) { return s(Math.abs(d(a))); }
    public static Value FLt(final Value a, final Value b) { return b(d(a) < d(b)); }
    public static Value FLe(final Value a, final Value b) { return b(d(a) <= d(b)); }
    public static Value FEq(final Value a, final Value b) { return b(d(a) == d(b)); }
    public static Value FFinite(final Value a) {
        final double x = d(a);
        return b(!Double.isNaN(x) && !Double.isInfinite(x));
    }

    public static Value FIsNum(final Value a) {
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        try {
            d(a);
            return BoolValue.ValTrue;
        } catch (final NumberFormatException e) {
            return BoolValue.ValFalse;
        }
    }

    public static Value FInt(final Value n) { return s(((IntValue) n).val); }
    public static Value FTrunc(final Value a) { return IntValue.gen((int) d(a)); }

    public static Value FRound(final Value a, final Value k) {
        final double x = d(a);
        if (x == 0 || Double.isNaN(x) || Double.isInfinite(x)) return a;
        return s(new java.math.BigDecimal(x)
            .round(new java.math.MathContext(((IntValue) k).val)).doubleValue());
    }

    public static Value FUnif(final Value key) {
        long h = 0xcbf29ce484222325L;
        for (final byte c : ((StringValue) key).val.toString()
                .getBytes(java.nio.charset.StandardCharsets.UTF_8)) {
            h = (h ^ (c & 0xff)) * 0x100000001b3L;
        }
        // splitmix64 finalizer
        h += 0x9e3779b97f4a7c15L;
        h = (h ^ (h >>> 30)) * 0xbf58476d1ce4e5b9L;
        h = (h ^ (h >>> 27)) * 0x94d049bb133111ebL;
        h ^= h >>> 31;
        return s((h >>> 11) * 0x1.0p-53);
    }
}
