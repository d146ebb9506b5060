/* Java implementation of the operators declared in spec/FP.tla and spec/Big.tla:
   IEEE-754 doubles (as pairs <<hi,lo>> of 32-bit halves) and unbounded integers (as decimal strings). */
import tlc2.value.impl.*;
import tlc2.overrides.*;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;

public class FPO {
  static double d(Value v){
    Value[] e=(v instanceof TupleValue ? (TupleValue)v : (TupleValue)v.toTuple()).elems;
    return Double.longBitsToDouble(((long)((IntValue)e[0]).val<<32)|(((IntValue)e[1]).val&0xffffffffL)); }
  static Value w(double x){ long b=Double.doubleToRawLongBits(x); return new TupleValue(IntValue.gen((int)(b>>32)),IntValue.gen((int)b)); }
  static Value b(boolean x){ return x?BoolValue.ValTrue:BoolValue.ValFalse; }
  @TLAPlusOperator(identifier="\\oplus",module="FP",warn=false) public static Value add(Value a,Value b){return w(d(a)+d(b));}
  @TLAPlusOperator(identifier="\\ominus",module="FP",warn=false) public static Value sub(Value a,Value b){return w(d(a)-d(b));}
  @TLAPlusOperator(identifier="\\odot",module="FP",warn=false) public static Value mul(Value a,Value b){return w(d(a)*d(b));}
  @TLAPlusOperator(identifier="\\oslash",module="FP",warn=false) public static Value div(Value a,Value b){return w(d(a)/d(b));}
  @TLAPlusOperator(identifier="\\prec",module="FP",warn=false) public static Value lt(Value a,Value b){return b(d(a)<d(b));}
  @TLAPlusOperator(identifier="\\preceq",module="FP",warn=false) public static Value le(Value a,Value b){return b(d(a)<=d(b));}
  @TLAPlusOperator(identifier="Neg",module="FP",warn=false) public static Value neg(Value a){return w(-d(a));}
  @TLAPlusOperator(identifier="Abs",module="FP",warn=false) public static Value abs(Value a){return w(Math.abs(d(a)));}
  @TLAPlusOperator(identifier="Sqrt",module="FP",warn=false) public static Value sqrt(Value a){return w(Math.sqrt(d(a)));}
  @TLAPlusOperator(identifier="Sin",module="FP",warn=false) public static Value sin(Value a){return w(StrictMath.sin(d(a)));}
  @TLAPlusOperator(identifier="Cos",module="FP",warn=false) public static Value cos(Value a){return w(StrictMath.cos(d(a)));}
  @TLAPlusOperator(identifier="Tan",module="FP",warn=false) public static Value tan(Value a){return w(StrictMath.tan(d(a)));}
  @TLAPlusOperator(identifier="Asin",module="FP",warn=false) public static Value asin(Value a){return w(StrictMath.asin(d(a)));}
  @TLAPlusOperator(identifier="Acos",module="FP",warn=false) public static Value acos(Value a){return w(StrictMath.acos(d(a)));}
  @TLAPlusOperator(identifier="Atan",module="FP",warn=false) public static Value atan(Value a){return w(StrictMath.atan(d(a)));}
  @TLAPlusOperator(identifier="Atan2",module="FP",warn=false) public static Value atan2(Value a,Value b){return w(StrictMath.atan2(d(a),d(b)));}
  @TLAPlusOperator(identifier="Pow",module="FP",warn=false) public static Value pow(Value a,Value b){return w(StrictMath.pow(d(a),d(b)));}
  @TLAPlusOperator(identifier="FMod",module="FP",warn=false) public static Value fmod(Value a,Value b){return w(d(a)%d(b));}
  @TLAPlusOperator(identifier="Floor",module="FP",warn=false) public static Value floor(Value a){return w(Math.floor(d(a)));}
  @TLAPlusOperator(identifier="RTrunc",module="FP",warn=false) public static Value rtrunc(Value a){double x=d(a); return w(x<0?Math.ceil(x):Math.floor(x));}
  @TLAPlusOperator(identifier="Trunc",module="FP",warn=false) public static Value trunc(Value a){return IntValue.gen((int)d(a));}
  @TLAPlusOperator(identifier="N",module="FP",warn=false) public static Value n(Value a){return w(((IntValue)a).val);}
  @TLAPlusOperator(identifier="IsNaN",module="FP",warn=false) public static Value isnan(Value a){return b(Double.isNaN(d(a)));}
  @TLAPlusOperator(identifier="IsFinite",module="FP",warn=false) public static Value isfinite(Value a){return b(Double.isFinite(d(a)));}
  @TLAPlusOperator(identifier="SameBits",module="FP",warn=false) public static Value same(Value a,Value b){return b(Double.doubleToRawLongBits(d(a))==Double.doubleToRawLongBits(d(b)));}
  static final ConcurrentHashMap<Object,Value> C=new ConcurrentHashMap<>();
  static double parse(String s){
    if(s.equals("nan")||s.equals("-nan")) return Double.NaN;
    if(s.equals("inf")) return Double.POSITIVE_INFINITY;
    if(s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return Double.parseDouble(s); }
  /* decimal numeral given as a sequence of bytes */
  @TLAPlusOperator(identifier="OfText",module="FP",warn=false) public static Value oftext(Value v){
    Value[] e=(v instanceof TupleValue ? (TupleValue)v : (TupleValue)v.toTuple()).elems; StringBuilder t=new StringBuilder();
    for(Value c:e) t.append((char)((IntValue)c).val); return w(Double.parseDouble(t.toString())); }
  /* bytes of a string literal */
  @TLAPlusOperator(identifier="Codes",module="Text",warn=false) public static Value codes(Value s){
    String t=((StringValue)s).val.toString(); Value[] e=new Value[t.length()]; for(int i=0;i<e.length;i++) e[i]=IntValue.gen(t.charAt(i)); return new TupleValue(e); }
  @TLAPlusOperator(identifier="ShowText",module="Text",warn=false) public static Value showtext(Value v){
    Value[] e=(v instanceof TupleValue ? (TupleValue)v : (TupleValue)v.toTuple()).elems; StringBuilder t=new StringBuilder();
    for(Value c:e){ int x=((IntValue)c).val; t.append(x>=32&&x<127&&x!='"'&&x!='\\'&&x!='<'&&x!='>'?(char)x:'?'); } return new StringValue(t.toString()); }
  /* literal in the specification: cached */
  @TLAPlusOperator(identifier="D",module="FP",warn=false) public static Value D(Value s){ return C.computeIfAbsent(((StringValue)s).val, k->w(parse(k.toString())));}
  /* number in a recorded trace */
  @TLAPlusOperator(identifier="R",module="FP",warn=false) public static Value R(Value s){ return w(parse(((StringValue)s).val.toString()));}
  @TLAPlusOperator(identifier="Show",module="FP",warn=false) public static Value show(Value s){ return new StringValue(Double.toString(d(s)));}
  /* strict evaluation of an operator argument: all overridden operators evaluate their arguments */
  @TLAPlusOperator(identifier="Force",module="FP",warn=false) public static Value force(Value a){ a.deepNormalize(); return a;}

  static BigInteger g(Value v){ return v instanceof IntValue ? BigInteger.valueOf(((IntValue)v).val) : new BigInteger(((StringValue)v).val.toString()); }
  static Value s(BigInteger x){ return new StringValue(x.toString()); }
  @TLAPlusOperator(identifier="BAdd",module="Big",warn=false) public static Value badd(Value a,Value b){return s(g(a).add(g(b)));}
  @TLAPlusOperator(identifier="BSub",module="Big",warn=false) public static Value bsub(Value a,Value b){return s(g(a).subtract(g(b)));}
  @TLAPlusOperator(identifier="BMul",module="Big",warn=false) public static Value bmul(Value a,Value b){return s(g(a).multiply(g(b)));}
  @TLAPlusOperator(identifier="BDiv",module="Big",warn=false) public static Value bdiv(Value a,Value b){
    BigInteger[] q=g(a).divideAndRemainder(g(b)); return s(q[1].signum()!=0 && (q[1].signum()!=g(b).signum()) ? q[0].subtract(BigInteger.ONE) : q[0]);}
  @TLAPlusOperator(identifier="BMod",module="Big",warn=false) public static Value bmod(Value a,Value b){return s(g(a).mod(g(b)));}
  @TLAPlusOperator(identifier="BLt",module="Big",warn=false) public static Value blt(Value a,Value b){return b(g(a).compareTo(g(b))<0);}
  @TLAPlusOperator(identifier="BLe",module="Big",warn=false) public static Value ble(Value a,Value b){return b(g(a).compareTo(g(b))<=0);}
  @TLAPlusOperator(identifier="BEq",module="Big",warn=false) public static Value beq(Value a,Value b){return b(g(a).compareTo(g(b))==0);}
  @TLAPlusOperator(identifier="BSqrt",module="Big",warn=false) public static Value bsqrt(Value a){return s(g(a).sqrt());}
  @TLAPlusOperator(identifier="BInt",module="Big",warn=false) public static Value bint(Value a){return IntValue.gen(g(a).intValueExact());}
  @TLAPlusOperator(identifier="BToFP",module="Big",warn=false) public static Value btofp(Value a){return w(g(a).doubleValue());}
  @TLAPlusOperator(identifier="BOfFP",module="Big",warn=false) public static Value boffp(Value a){return s(new java.math.BigDecimal(d(a)).toBigInteger());}
}
