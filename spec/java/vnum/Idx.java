package vnum;
public final class Idx implements tlc2.overrides.ITLCOverrides {
  public Class[] get(){ return new Class[]{ Num.class }; }
}
