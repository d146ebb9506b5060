public class Ov implements tlc2.overrides.ITLCOverrides {
  public Class[] get(){ return new Class[]{FPO.class}; }
}
