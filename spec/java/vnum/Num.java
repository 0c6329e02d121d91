package vnum;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import java.math.*;
import java.util.*;
/** Evaluation of the operators declared in Num.tla: exact decimal arithmetic
 *  (every double is a decimal); quotients, roots, exponentials and logarithms
 *  are rounded to 50 digits. A literal without '#' denotes the double nearest to it,
 *  "#d" denotes the decimal d exactly. Non-finite values follow IEEE rules. */
public final class Num {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
  static final MathContext MCX = new MathContext(70, RoundingMode.HALF_EVEN);
  static final Map<String,BigDecimal> CACHE = Collections.synchronizedMap(new LinkedHashMap<String,BigDecimal>(1<<14,0.75f,true){
    protected boolean removeEldestEntry(Map.Entry<String,BigDecimal> e){ return size()>100000; }});
  static String str(Value v){ return ((StringValue)v).val.toString(); }
  static boolean fin(Value v){
    if (v instanceof IntValue) return true;
    String s=str(v); return !(s.equals("nan")||s.equals("inf")||s.equals("-inf"));
  }
  static double dbl(Value v){
    if (v instanceof IntValue) return ((IntValue)v).val;
    String s=str(v);
    if(s.equals("nan")) return Double.NaN; if(s.equals("inf")) return Double.POSITIVE_INFINITY; if(s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return bd(v).doubleValue();
  }
  static BigDecimal bd(Value v){
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue)v).val);
    String s=str(v); BigDecimal b=CACHE.get(s);
    if(b==null){ b = s.charAt(0)=='#' ? new BigDecimal(s.substring(1)) : new BigDecimal(Double.parseDouble(s)); CACHE.put(s,b); }
    return b;
  }
  static Value val(BigDecimal b){
    if (b.signum()==0) return new StringValue("0");
    b=b.stripTrailingZeros();
    if (b.precision()>120) b=b.round(new MathContext(120));
    String s="#"+b.toString(); CACHE.put(s,b);
    return new StringValue(s);
  }
  static Value ieee(double d){ return new StringValue(Double.isNaN(d)?"nan":d>0?"inf":"-inf"); }
  static Value fromD(double d){ if(Double.isNaN(d)||Double.isInfinite(d)) return ieee(d); return val(new BigDecimal(d)); }
  static Value B(boolean b){ return b?BoolValue.ValTrue:BoolValue.ValFalse; }
  static Value[] seq(Value v){ Value t=v.toTuple(); if(t==null) throw new RuntimeException("not a sequence: "+v); return ((TupleValue)t).elems; }

  @TLAPlusOperator(identifier="NFin",module="Num",warn=false) public static Value NFin(Value a){ return B(fin(a)); }
  @TLAPlusOperator(identifier="NNaN",module="Num",warn=false) public static Value NNaN(Value a){ return B(!fin(a)&&str(a).equals("nan")); }
  @TLAPlusOperator(identifier="NLt",module="Num",warn=false) public static Value NLt(Value a,Value b){
    if(fin(a)&&fin(b)) return B(bd(a).compareTo(bd(b))<0); return B(dbl(a)<dbl(b)); }
  @TLAPlusOperator(identifier="NLe",module="Num",warn=false) public static Value NLe(Value a,Value b){
    if(fin(a)&&fin(b)) return B(bd(a).compareTo(bd(b))<=0); return B(dbl(a)<=dbl(b)); }
  @TLAPlusOperator(identifier="NEq",module="Num",warn=false) public static Value NEq(Value a,Value b){
    if(fin(a)&&fin(b)) return B(bd(a).compareTo(bd(b))==0); return B(dbl(a)==dbl(b)); }
  @TLAPlusOperator(identifier="NAdd",module="Num",warn=false) public static Value NAdd(Value a,Value b){
    if(fin(a)&&fin(b)) return val(bd(a).add(bd(b))); return ieee(dbl(a)+dbl(b)); }
  @TLAPlusOperator(identifier="NSub",module="Num",warn=false) public static Value NSub(Value a,Value b){
    if(fin(a)&&fin(b)) return val(bd(a).subtract(bd(b))); return ieee(dbl(a)-dbl(b)); }
  @TLAPlusOperator(identifier="NMul",module="Num",warn=false) public static Value NMul(Value a,Value b){
    if(fin(a)&&fin(b)) return val(bd(a).multiply(bd(b))); return fromD(dbl(a)*dbl(b)); }
  @TLAPlusOperator(identifier="NDiv",module="Num",warn=false) public static Value NDiv(Value a,Value b){
    if(fin(a)&&fin(b)&&bd(b).signum()!=0) return val(bd(a).divide(bd(b),MC)); return fromD(dbl(a)/dbl(b)); }
  @TLAPlusOperator(identifier="NNeg",module="Num",warn=false) public static Value NNeg(Value a){ return fin(a)?val(bd(a).negate()):ieee(-dbl(a)); }
  @TLAPlusOperator(identifier="NAbs",module="Num",warn=false) public static Value NAbs(Value a){ return fin(a)?val(bd(a).abs()):ieee(Math.abs(dbl(a))); }
  @TLAPlusOperator(identifier="NMax",module="Num",warn=false) public static Value NMax(Value a,Value b){ if(fin(a)&&fin(b)) return bd(a).compareTo(bd(b))<0?b:a; return dbl(a)<dbl(b)?b:a; }
  @TLAPlusOperator(identifier="NMin",module="Num",warn=false) public static Value NMin(Value a,Value b){ if(fin(a)&&fin(b)) return bd(a).compareTo(bd(b))<0?a:b; return dbl(a)<dbl(b)?a:b; }
  @TLAPlusOperator(identifier="NSqrt",module="Num",warn=false) public static Value NSqrt(Value a){ if(fin(a)&&bd(a).signum()>=0) return val(bd(a).sqrt(MC)); return fromD(Math.sqrt(dbl(a))); }
  @TLAPlusOperator(identifier="NExp",module="Num",warn=false) public static Value NExp(Value a){ if(!fin(a)) return fromD(Math.exp(dbl(a))); return val(exp(bd(a)).round(MC)); }
  @TLAPlusOperator(identifier="NLog",module="Num",warn=false) public static Value NLog(Value a){ if(!fin(a)||bd(a).signum()<=0) return fromD(Math.log(dbl(a))); return val(log(bd(a)).round(MC)); }

  static BigDecimal exp(BigDecimal x){
    if(x.signum()==0) return BigDecimal.ONE;
    if(x.compareTo(BigDecimal.valueOf(5000))>0) x=BigDecimal.valueOf(5000);
    if(x.compareTo(BigDecimal.valueOf(-5000))<0) x=BigDecimal.valueOf(-5000);
    x=x.round(MCX); int k=0; BigDecimal y=x;
    while(y.abs().compareTo(new BigDecimal("0.01"))>0){ y=y.divide(BigDecimal.valueOf(2),MCX); k++; }
    BigDecimal t=BigDecimal.ONE, s=BigDecimal.ONE;
    for(int i=1;i<60;i++){ t=t.multiply(y,MCX).divide(BigDecimal.valueOf(i),MCX); s=s.add(t,MCX); if(t.signum()==0||t.precision()-t.scale()<-72) break; }
    for(int i=0;i<k;i++) s=s.multiply(s,MCX);
    return s;
  }
  static BigDecimal log(BigDecimal a){
    int e=a.precision()-a.scale(); BigDecimal m=a.scaleByPowerOfTen(-e).round(MCX); // m in [0.1,1)
    BigDecimal y=new BigDecimal(Math.log(m.doubleValue()));
    for(int i=0;i<3;i++){ BigDecimal ey=exp(y); // y += 2 (m-e^y)/(m+e^y)
      y=y.add(BigDecimal.valueOf(2).multiply(m.subtract(ey),MCX).divide(m.add(ey),MCX),MCX); }
    return y.add(BigDecimal.valueOf(e).multiply(LN10,MCX),MCX);
  }
  static final BigDecimal LN10=new BigDecimal("2.302585092994045684017991454684364207601101488628772976033327900967572609677352480235997205089598298341967784042286");

  @TLAPlusOperator(identifier="NDot",module="Num",warn=false) public static Value NDot(Value a,Value b){
    Value[] x=seq(a),y=seq(b); if(x.length!=y.length) throw new RuntimeException("NDot: lengths "+x.length+" "+y.length);
    boolean f=true; for(Value v:x) f&=fin(v); for(Value v:y) f&=fin(v);
    if(!f){ double s=0; for(int i=0;i<x.length;i++) s+=dbl(x[i])*dbl(y[i]); return fromD(s); }
    BigDecimal s=BigDecimal.ZERO; for(int i=0;i<x.length;i++) s=s.add(bd(x[i]).multiply(bd(y[i]))); return val(s); }
  @TLAPlusOperator(identifier="NAbsDot",module="Num",warn=false) public static Value NAbsDot(Value a,Value b){
    Value[] x=seq(a),y=seq(b);
    boolean f=true; for(Value v:x) f&=fin(v); for(Value v:y) f&=fin(v);
    if(!f){ double s=0; for(int i=0;i<x.length;i++) s+=Math.abs(dbl(x[i])*dbl(y[i])); return fromD(s); }
    BigDecimal s=BigDecimal.ZERO; for(int i=0;i<x.length;i++) s=s.add(bd(x[i]).multiply(bd(y[i])).abs()); return val(s); }
  @TLAPlusOperator(identifier="NNorm",module="Num",warn=false) public static Value NNorm(Value a){
    Value[] x=seq(a); boolean f=true; for(Value v:x) f&=fin(v);
    if(!f){ double s=0; for(int i=0;i<x.length;i++) s+=dbl(x[i])*dbl(x[i]); return fromD(Math.sqrt(s)); }
    BigDecimal s=BigDecimal.ZERO; for(Value v:x){ BigDecimal b=bd(v); s=s.add(b.multiply(b)); } return s.signum()==0?new StringValue("0"):val(s.sqrt(MC)); }
  /* y = M v, M in compressed column form (0-based) with rows rows */
  @TLAPlusOperator(identifier="NMatVec",module="Num",warn=false) public static Value NMatVec(Value jc,Value ir,Value pr,Value v,Value rows){
    Value[] J=seq(jc),I=seq(ir),P=seq(pr),X=seq(v); int m=((IntValue)rows).val; Value[] out=new Value[m];
    boolean f=true; for(Value q:P) f&=fin(q); for(Value q:X) f&=fin(q);
    if(!f){ double[] r=new double[m]; for(int j=0;j<X.length;j++) for(int k=((IntValue)J[j]).val;k<((IntValue)J[j+1]).val;k++) r[((IntValue)I[k]).val]+=dbl(P[k])*dbl(X[j]); for(int i=0;i<m;i++) out[i]=fromD(r[i]); return new TupleValue(out);} 
    BigDecimal[] r=new BigDecimal[m]; Arrays.fill(r,BigDecimal.ZERO);
    for(int j=0;j<X.length;j++){ BigDecimal xj=bd(X[j]); for(int k=((IntValue)J[j]).val;k<((IntValue)J[j+1]).val;k++){ int i=((IntValue)I[k]).val; r[i]=r[i].add(bd(P[k]).multiply(xj)); } }
    for(int i=0;i<m;i++) out[i]=val(r[i]); return new TupleValue(out); }
  @TLAPlusOperator(identifier="NMatTVec",module="Num",warn=false) public static Value NMatTVec(Value jc,Value ir,Value pr,Value v,Value cols){
    Value[] J=seq(jc),I=seq(ir),P=seq(pr),X=seq(v); int n=((IntValue)cols).val; Value[] out=new Value[n];
    boolean f=true; for(Value q:P) f&=fin(q); for(Value q:X) f&=fin(q);
    for(int j=0;j<n;j++){ 
      if(!f){ double s=0; for(int k=((IntValue)J[j]).val;k<((IntValue)J[j+1]).val;k++) s+=dbl(P[k])*dbl(X[((IntValue)I[k]).val]); out[j]=fromD(s); continue; }
      BigDecimal s=BigDecimal.ZERO; for(int k=((IntValue)J[j]).val;k<((IntValue)J[j+1]).val;k++) s=s.add(bd(P[k]).multiply(bd(X[((IntValue)I[k]).val]))); out[j]=val(s); }
    return new TupleValue(out); }
  static Value map2(Value a,Value b,int op){ Value[] x=seq(a),y=seq(b); if(x.length!=y.length) throw new RuntimeException("vector lengths "+x.length+" "+y.length);
    Value[] o=new Value[x.length]; for(int i=0;i<o.length;i++) o[i]= op==0?NAdd(x[i],y[i]): op==1?NSub(x[i],y[i]): op==2?NMul(x[i],y[i]):NDiv(x[i],y[i]); return new TupleValue(o); }
  @TLAPlusOperator(identifier="VAdd",module="Num",warn=false) public static Value VAdd(Value a,Value b){ return map2(a,b,0); }
  @TLAPlusOperator(identifier="VSub",module="Num",warn=false) public static Value VSub(Value a,Value b){ return map2(a,b,1); }
  @TLAPlusOperator(identifier="VMul",module="Num",warn=false) public static Value VMul(Value a,Value b){ return map2(a,b,2); }
  @TLAPlusOperator(identifier="VDiv",module="Num",warn=false) public static Value VDiv(Value a,Value b){ return map2(a,b,3); }
  @TLAPlusOperator(identifier="VScale",module="Num",warn=false) public static Value VScale(Value c,Value a){ Value[] x=seq(a); Value[] o=new Value[x.length]; for(int i=0;i<o.length;i++) o[i]=NMul(c,x[i]); return new TupleValue(o); }
  /* |a_i-b_i| <= rel*max(|a_i|,|b_i|)+abs for all i; equal non-finite values count as close */
  @TLAPlusOperator(identifier="VClose",module="Num",warn=false) public static Value VClose(Value a,Value b,Value rel,Value abs){ Value[] x=seq(a),y=seq(b); if(x.length!=y.length) return B(false);
    BigDecimal r=bd(rel),e=bd(abs);
    for(int i=0;i<x.length;i++){ if(!fin(x[i])||!fin(y[i])){ if(Double.compare(dbl(x[i]),dbl(y[i]))!=0) return B(false); continue; }
      BigDecimal p=bd(x[i]),q=bd(y[i]); if(p.subtract(q).abs().compareTo(p.abs().max(q.abs()).multiply(r).add(e))>0) return B(false); } return B(true); }
  /* pseudo-random choice: a fixed function of its arguments into 0..mod-1 */
  @TLAPlusOperator(identifier="Rnd",module="Num",warn=false) public static Value Rnd(Value seed,Value tag,Value mod){
    long z=0x9E3779B97F4A7C15L*(((IntValue)seed).val+0x1234567L); for(Value t:seq(tag)){ long k=((IntValue)t).val; z^=k*0xBF58476D1CE4E5B9L+0x94D049BB133111EBL; z=(z^(z>>>30))*0xBF58476D1CE4E5B9L; z=(z^(z>>>27))*0x94D049BB133111EBL; z^=z>>>31; }
    return IntValue.gen((int)Long.remainderUnsigned(z,((IntValue)mod).val)); }
  @TLAPlusOperator(identifier="NFloor",module="Num",warn=false) public static Value NFloor(Value a){ return IntValue.gen(bd(a).setScale(0,RoundingMode.FLOOR).intValueExact()); }
  /** the w > 0 with w + log w = x */
  @TLAPlusOperator(identifier="NOmega",module="Num",warn=false) public static Value NOmega(Value a){
    if(!fin(a)) return ieee(Double.NaN);
    BigDecimal x=bd(a).round(MCX); double xd=x.doubleValue();
    if(xd<-2000) return new StringValue("0");
    BigDecimal w = xd<-1 ? exp(x) : xd<2 ? BigDecimal.ONE : new BigDecimal(xd-Math.log(xd));
    for(int i=0;i<60;i++){
      BigDecimal f=w.add(log(w),MCX).subtract(x,MCX), d=w.multiply(f,MCX).divide(w.add(BigDecimal.ONE),MCX), v=w.subtract(d,MCX);
      if(v.signum()<=0) v=w.divide(BigDecimal.valueOf(2),MCX);
      boolean done = v.subtract(w).abs().compareTo(w.scaleByPowerOfTen(-60))<0;
      w=v; if(done) break;
    }
    return val(w.round(MC));
  }
  /** the x with M x = r (M a sequence of rows), or the empty sequence if M is singular to the accuracy of its entries */
  @TLAPlusOperator(identifier="NSolve",module="Num",warn=false) public static Value NSolve(Value M,Value r){
    Value[] R=seq(M), rr=seq(r); int n=R.length; BigDecimal[][] a=new BigDecimal[n][n+1]; BigDecimal[] big=new BigDecimal[n];
    for(int i=0;i<n;i++){ Value[] row=seq(R[i]); if(row.length!=n||rr.length!=n) throw new RuntimeException("NSolve: dimensions");
      big[i]=BigDecimal.ZERO;
      for(int j=0;j<=n;j++){ Value v=j<n?row[j]:rr[i]; if(!fin(v)) return new TupleValue(new Value[0]); a[i][j]=bd(v).round(MC); if(j<n) big[i]=big[i].max(a[i][j].abs()); } }
    for(int k=0;k<n;k++){
      int p=k; for(int i=k+1;i<n;i++) if(a[i][k].abs().compareTo(a[p][k].abs())>0) p=i;
      BigDecimal[] t=a[p]; a[p]=a[k]; a[k]=t; BigDecimal b=big[p]; big[p]=big[k]; big[k]=b;
      if(a[k][k].abs().compareTo(big[k].scaleByPowerOfTen(-10))<=0) return new TupleValue(new Value[0]);   // data are doubles
      for(int i=k+1;i<n;i++) if(a[i][k].signum()!=0){
        BigDecimal f=a[i][k].divide(a[k][k],MC); a[i][k]=BigDecimal.ZERO;
        for(int j=k+1;j<=n;j++) if(a[k][j].signum()!=0) a[i][j]=a[i][j].subtract(f.multiply(a[k][j],MC),MC); } }
    BigDecimal[] x=new BigDecimal[n];
    for(int k=n-1;k>=0;k--){ BigDecimal v=a[k][n]; for(int j=k+1;j<n;j++) v=v.subtract(a[k][j].multiply(x[j],MC),MC); x[k]=v.divide(a[k][k],MC); }
    Value[] o=new Value[n]; for(int k=0;k<n;k++) o[k]=val(x[k]); return new TupleValue(o);
  }
}
