package com.lightboxtechnologies.lightgrep;

import java.io.*;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.*;

/* Drives the Java binding: operations on standard input, one a line, what the
   binding answers on standard output, one scenario a line (see tools/lg.py). */
public class JavaDriver {
  /* What is missing could not be made, as was seen before. */
  static class Missing extends RuntimeException {
  }

  static final Map<String, Object> o = new HashMap<String, Object>() {
    private Object some(Object x) {
      if (x == null) {
        throw new Missing();
      }
      return x;
    }

    public Object get(Object k) { return some(super.get(k)); }
    public Object remove(Object k) { return some(super.remove(k)); }
  };
  static Handle dropped;

  static class Op {
    String op;
    Map<String, String> v = new HashMap<>();

    String s(String k) { return v.get(k).substring(1); }
    long i(String k) { return new BigInteger(s(k)).longValue(); }
    int n(String k) { return (int) i(k); }
    boolean has(String k) { return v.containsKey(k); }
    byte[] b(String k) {
      if (!has(k)) {
        return new byte[0];
      }
      String h = s(k);
      byte[] r = new byte[h.length() / 2];
      for (int j = 0; j < r.length; ++j) {
        r[j] = (byte) Integer.parseInt(h.substring(2*j, 2*j + 2), 16);
      }
      return r;
    }
    String text(String k) { return new String(b(k), StandardCharsets.UTF_8); }
  }

  static String lat(String s) {
    if (s == null) {
      return "null";
    }
    return lat(s.getBytes(StandardCharsets.UTF_8));
  }

  static String lat(byte[] b) {
    if (b == null) {
      return "null";
    }
    StringBuilder r = new StringBuilder("\"");
    for (byte x : b) {
      int c = x & 0xff;
      if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
        r.append(String.format("\\u%04x", c));
      }
      else {
        r.append((char) c);
      }
    }
    return r.append('"').toString();
  }

  static String err(Throwable t, byte[] pat, byte[] enc) {
    return "[{\"msg\": " + lat(t.getMessage()) + ", \"pat\": " + lat(pat) + ", \"enc\": " + lat(enc) + ", \"src\": null, \"idx\": -1}]";
  }

  /* One piece of text, in a place of its own */
  static class Data {
    byte[] array;
    int at, size;
    ByteBuffer buf;
    int pos, lim;

    Data(byte[] b, String how) {
      size = b.length;
      int pre = how.equals("array") || how.equals("direct") ? 0 : 3;
      int post = how.equals("array") || how.equals("direct") ? 0 : 5;
      byte[] big = new byte[pre + size + post];
      Arrays.fill(big, (byte) 0x61);
      System.arraycopy(b, 0, big, pre, size);
      switch (how) {
      case "array":
      case "part":
        array = big;
        at = pre;
        return;
      case "wrap":
        buf = ByteBuffer.wrap(big, pre, size);
        break;
      case "slice": {
        ByteBuffer x = ByteBuffer.wrap(big);
        x.position(2);
        buf = x.slice();
        buf.position(1);
        break;
      }
      case "ro":
        buf = ByteBuffer.wrap(big).asReadOnlyBuffer();
        buf.position(pre);
        break;
      default:
        buf = ByteBuffer.allocateDirect(big.length);
        buf.put(big);
        buf.position(pre);
        if (how.equals("dslice")) {
          buf.position(1);
          buf = buf.slice();
          buf.position(2);
          buf.limit(2 + size);
        }
      }
      pos = buf.position();
      lim = buf.limit();
    }

    void check() {
      if (buf != null && (buf.position() != pos || buf.limit() != lim)) {
        throw new Wrong("the buffer was moved from " + pos + " to " + buf.position());
      }
    }
  }

  static class Wrong extends RuntimeException {
    Wrong(String s) { super(s); }
  }

  static class Stop extends RuntimeException {
  }

  static class Hits implements HitCallback {
    final StringBuilder s = new StringBuilder();
    int n, stop;

    Hits(int stop) { this.stop = stop; }

    public void callback(SearchHit h) {
      s.append(n++ > 0 ? ", [" : "[").append(h.Start).append(", ").append(h.End).append(", ").append(h.KeywordIndex).append("]");
      if (n == stop) {
        throw new Stop();
      }
    }

    public String toString() { return "[" + s + "]"; }
  }

  static KeyOptions keyOptions(Op a) {
    KeyOptions k = new KeyOptions();
    k.FixedString = a.i("fx") != 0;
    k.CaseInsensitive = a.i("ci") != 0;
    k.UnicodeMode = a.i("un") != 0;
    return k;
  }

  static String infos(int n, java.util.function.IntFunction<PatternInfo> info, java.util.function.IntUnaryOperator idx) {
    StringBuilder r = new StringBuilder("{\"infos\": [");
    for (int k = 0; k < n; ++k) {
      PatternInfo p = info.apply(k);
      if (idx.applyAsInt(k) != p.UserIndex) {
        throw new Wrong("two user indices");
      }
      r.append(k > 0 ? ", " : "").append("[" + lat(p.Pattern) + ", " + lat(p.EncodingChain) + ", " + p.UserIndex + "]");
    }
    try {
      info.apply(n);
      throw new Wrong("information on nothing");
    }
    catch (IndexOutOfBoundsException e) {
    }
    try {
      idx.applyAsInt(n);
      throw new Wrong("user index of nothing");
    }
    catch (IndexOutOfBoundsException e) {
    }
    return r + "]}";
  }

  static void churn() {
    List<byte[]> junk = new ArrayList<>();
    for (int k = 0; k < 50; ++k) {
      byte[] b = new byte[1000 * (k % 10 + 1)];
      Arrays.fill(b, (byte) 0xdb);
      junk.add(b);
    }
    System.gc();
  }

  static boolean inside(long off, long size, long hb, long he) {
    return off >= 0 && hb >= off && he >= hb && off + size >= 0 && he <= off + size;
  }

  static String run(Op a) throws Exception {
    switch (a.op) {
    case "fsm":
      o.put("F" + a.s("f"), new FSMHandle(a.n("h1"), a.n("h2")));
      return "{}";
    case "pat": {
      String p = "P" + a.s("p");
      if (!o.containsKey(p)) {
        o.put(p, new PatternHandle());
      }
      // what a string with a null becomes
      String t = new String(a.b("bytes"), StandardCharsets.ISO_8859_1).replace("\u00c0\u0080", "\0");
      t = new String(t.getBytes(StandardCharsets.ISO_8859_1), StandardCharsets.UTF_8);
      try {
        return "{\"ret\": " + ((PatternHandle) o.get(p)).parsePattern(t, keyOptions(a)) + ", \"errs\": []}";
      }
      catch (KeywordException e) {
        return "{\"ret\": 0, \"errs\": " + err(e, a.b("bytes"), null) + "}";
      }
    }
    case "add": {
      FSMHandle f = (FSMHandle) o.get("F" + a.s("f"));
      try {
        return "{\"ret\": " + f.addPattern((PatternHandle) o.get("P" + a.s("p")), a.text("enc"), a.n("idx")) + ", \"errs\": []}";
      }
      catch (Exception e) {
        if (!(e instanceof KeywordException)) {
          throw e;
        }
        return "{\"ret\": -1, \"errs\": " + err(e, a.b("pat"), a.b("enc")) + "}";
      }
    }
    case "fcount":
      return "{\"n\": " + ((FSMHandle) o.get("F" + a.s("f"))).count() + "}";
    case "pcount":
      return "{\"n\": " + ((ProgramHandle) o.get("G" + a.s("g"))).count() + "}";
    case "finfos": {
      FSMHandle f = (FSMHandle) o.get("F" + a.s("f"));
      return infos(f.count(), f::getPatternInfo, f::getUserIndex);
    }
    case "pinfos": {
      ProgramHandle g = (ProgramHandle) o.get("G" + a.s("g"));
      return infos(g.count(), g::getPatternInfo, g::getUserIndex);
    }
    case "setidx":
      try {
        if (a.s("h").equals("f")) {
          ((FSMHandle) o.get("F" + a.s("f"))).setUserIndex(a.n("k"), a.n("idx"));
        }
        else {
          ((ProgramHandle) o.get("G" + a.s("g"))).setUserIndex(a.n("k"), a.n("idx"));
        }
        return "{\"ok\": 1}";
      }
      catch (IndexOutOfBoundsException e) {
        return "{\"ok\": 0}";
      }
    case "prog": {
      ProgramHandle g = new ProgramHandle(0);
      ProgramOptions po = new ProgramOptions();
      po.Determinize = a.i("depth") != 0;
      try {
        g.compile((FSMHandle) o.get("F" + a.s("f")), po);
      }
      catch (ProgramException e) {
        return "{\"ok\": 0}";
      }
      o.put("G" + a.s("g"), g);
      return "{\"ok\": 1}";
    }
    case "write": {
      ProgramHandle g = (ProgramHandle) o.get("G" + a.s("g"));
      int at = a.n("at"), n = g.size();
      byte[] b = new byte[at + n + 9];
      for (int r = 0; r < 2; ++r) {
        Arrays.fill(b, r == 0 ? (byte) 0x5a : (byte) 0xa5);
        g.write(b, at);
        for (int k = 0; k < b.length; ++k) {
          if ((k < at || k >= at + n) && b[k] != (r == 0 ? (byte) 0x5a : (byte) 0xa5)) {
            return "{\"intact\": 0}";
          }
        }
      }
      try {
        g.write(new byte[at + n - 1], at);
        return "{\"intact\": 0}";
      }
      catch (IndexOutOfBoundsException e) {
      }
      o.put("B" + a.s("b"), Arrays.copyOfRange(b, at, at + n));
      return "{\"intact\": 1}";
    }
    case "wsame":
      return "{\"same\": " + (Arrays.equals((byte[]) o.get("B" + a.s("b")), (byte[]) o.get("B" + a.s("b2"))) ? 1 : 0) + "}";
    case "read":
    case "readcut": {
      byte[] b = (byte[]) o.get("B" + a.s("b"));
      int n = a.op.equals("read") ? b.length : a.n("n") < 0 ? b.length + a.n("n") : Math.min(a.n("n"), b.length);
      int at = a.s("how").equals("array") ? 0 : 16;
      byte[] c = new byte[at + n + at/2];
      System.arraycopy(b, 0, c, at, n);
      ProgramHandle g;
      try {
        g = ProgramHandle.read(c, at, n);
      }
      catch (Exception e) {
        if (!(e instanceof ProgramException)) {
          throw e;
        }
        return "{\"ok\": 0}";
      }
      if (a.op.equals("read")) {
        o.put("G" + a.s("g"), g);
      }
      c = null;
      churn();
      return "{\"ok\": 1}";
    }
    case "ctx":
      o.put("C" + a.s("c"), ((ProgramHandle) o.get("G" + a.s("g"))).createContext(new ContextOptions()));
      return "{\"ok\": 1}";
    case "search":
    case "threw": {
      ContextHandle c = (ContextHandle) o.get("C" + a.s("c"));
      Hits h = new Hits(a.op.equals("threw") ? a.n("stop") : 0);
      Data d = new Data(a.b("bytes"), a.s("how"));
      Number r = 0;
      int thrown = 0;
      try {
        r = d.buf == null ? c.search(d.array, d.at, d.size, a.i("off"), h) : c.search(d.buf, d.size, a.i("off"), h);
      }
      catch (Stop e) {
        thrown = 1;
      }
      d.check();
      return "{\"ret\": " + r + ", \"thrown\": " + thrown + ", \"hits\": " + h + "}";
    }
    case "starts": {
      ContextHandle c = (ContextHandle) o.get("C" + a.s("c"));
      Hits h = new Hits(0);
      Data d = new Data(a.b("bytes"), a.s("how"));
      if (d.buf == null) {
        c.startsWith(d.array, d.at, d.size, a.i("off"), h);
      }
      else {
        c.startsWith(d.buf, d.size, a.i("off"), h);
      }
      d.check();
      return "{\"hits\": " + h + "}";
    }
    case "close": {
      Hits h = new Hits(0);
      ((ContextHandle) o.get("C" + a.s("c"))).closeoutSearch(h);
      return "{\"hits\": " + h + "}";
    }
    case "reset":
      ((ContextHandle) o.get("C" + a.s("c"))).reset();
      return "{\"hits\": []}";
    case "dec":
      o.put("D" + a.s("d"), new DecoderHandle());
      return "{}";
    case "hctx": {
      DecoderHandle d = (DecoderHandle) o.get("D" + a.s("d"));
      Data x = new Data(a.b("bytes"), a.s("how"));
      HitContext c;
      long off = a.i("off"), hb = a.i("hb"), he = a.i("he");
      try {
        c = x.buf == null ? LGUtil.getHitContext(d, x.array, x.at, x.size, off, hb, he, a.text("enc"), a.n("n"), a.n("repl"))
                          : LGUtil.getHitContext(d, x.buf, x.size, off, hb, he, a.text("enc"), a.n("n"), a.n("repl"));
      }
      catch (UnsupportedEncodingException e) {
        x.check();
        return "{\"errs\": " + err(e, null, a.b("enc")) + ", \"utf8\": [], \"bad\": 0, \"ob\": 0, \"oe\": 0, \"hb\": 0, \"he\": 0}";
      }
      catch (IndexOutOfBoundsException e) {
        return "{\"refused\": " + (inside(off, x.size, hb, he) ? 0 : 1) + "}";
      }
      if (!inside(off, x.size, hb, he)) {
        return "{\"refused\": 0}";
      }
      x.check();
      StringBuilder r = new StringBuilder();
      for (byte y : c.Decoded.getBytes(StandardCharsets.UTF_8)) {
        r.append(r.length() > 0 ? ", " : "").append(y & 0xff);
      }
      return "{\"errs\": [], \"utf8\": [" + r + "], \"bad\": " + c.Bad + ", \"ob\": " + c.Begin + ", \"oe\": " + c.End +
             ", \"hb\": " + c.HitBegin + ", \"he\": " + c.HitEnd + "}";
    }
    case "dfsm": case "dpat": case "dprog": case "dctx": case "dbuf": case "ddec": {
      Object h = o.remove(a.op.equals("dfsm") ? "F" + a.s("f") : a.op.equals("dpat") ? "P" + a.s("p") : a.op.equals("dprog") ? "G" + a.s("g") :
                          a.op.equals("dctx") ? "C" + a.s("c") : a.op.equals("ddec") ? "D" + a.s("d") : "B" + a.s("b"));
      dropped = null;
      if (h instanceof Handle && !a.s("way").equals("del")) {
        dropped = (Handle) h;
        switch (a.s("way")) {
        case "twice":
          dropped.close();
        case "close":
          dropped.destroy();
          break;
        default:
          try (Handle x = dropped) {
          }
        }
      }
      h = null;
      churn();
      return "{\"hits\": []}";
    }
    case "gone": {
      // every use of a handle which was destroyed is refused
      if (dropped == null) {
        return "{\"ok\": 0}";
      }
      boolean ok = !dropped.isDestroyed();
      List<java.util.concurrent.Callable<Object>> uses = new ArrayList<>();
      Hits hs = new Hits(0);
      byte[] abc = {97, 98, 99};
      if (dropped instanceof PatternHandle) {
        PatternHandle h = (PatternHandle) dropped;
        uses.add(() -> h.parsePattern("a", new KeyOptions()));
        uses.add(() -> new FSMHandle(0, 0).addPattern(h, "ASCII", 0));
      }
      else if (dropped instanceof FSMHandle) {
        FSMHandle h = (FSMHandle) dropped;
        uses.add(() -> h.count());
        uses.add(() -> h.addPattern(new PatternHandle(), "ASCII", 0));
        uses.add(() -> h.getPatternInfo(0));
        uses.add(() -> h.getUserIndex(0));
        uses.add(() -> { h.setUserIndex(0, 1); return 0; });
        uses.add(() -> new ProgramHandle(0).compile(h, new ProgramOptions()));
      }
      else if (dropped instanceof ProgramHandle) {
        ProgramHandle h = (ProgramHandle) dropped;
        uses.add(() -> h.count());
        uses.add(() -> h.size());
        uses.add(() -> { h.write(new byte[100000], 0); return 0; });
        uses.add(() -> h.getPatternInfo(0));
        uses.add(() -> h.getUserIndex(0));
        uses.add(() -> { h.setUserIndex(0, 1); return 0; });
        uses.add(() -> h.createContext(new ContextOptions()));
      }
      else if (dropped instanceof ContextHandle) {
        ContextHandle h = (ContextHandle) dropped;
        uses.add(() -> h.search(abc, 0, 3, 0, hs));
        uses.add(() -> h.search(ByteBuffer.wrap(abc), 3, 0, hs));
        uses.add(() -> { h.startsWith(abc, 0, 3, 0, hs); return 0; });
        uses.add(() -> { h.startsWith(ByteBuffer.wrap(abc), 3, 0, hs); return 0; });
        uses.add(() -> { h.closeoutSearch(hs); return 0; });
        uses.add(() -> { h.reset(); return 0; });
      }
      else {
        DecoderHandle h = (DecoderHandle) dropped;
        uses.add(() -> LGUtil.getHitContext(h, abc, 0, 3, 0, 1, 2, "UTF-8", 1, 32));
        uses.add(() -> LGUtil.getHitContext(h, ByteBuffer.wrap(abc), 3, 0, 1, 2, "UTF-8", 1, 32));
      }
      for (java.util.concurrent.Callable<Object> u : uses) {
        try {
          u.call();
          ok = true;
        }
        catch (IllegalStateException e) {
        }
      }
      return "{\"ok\": " + (ok ? 1 : 0) + "}";
    }
    default:
      throw new Wrong(a.op);
    }
  }

  public static void main(String[] args) throws Exception {
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.ISO_8859_1));
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "ISO-8859-1");
    StringBuilder obs = new StringBuilder();
    String id = "", ln;
    while ((ln = in.readLine()) != null) {
      String[] t = ln.split(" ");
      if (t[0].equals("S")) {
        id = t[1];
        o.clear();
        obs.setLength(0);
      }
      else if (t[0].equals("E")) {
        out.println("{\"id\": " + id + ", \"obs\": [" + obs + "]}");
        out.flush();
      }
      else {
        Op a = new Op();
        a.op = t[0];
        for (int k = 1; k < t.length; ++k) {
          int e = t[k].indexOf('=');
          a.v.put(t[k].substring(0, e), t[k].substring(e + 1));
        }
        String r;
        try {
          r = run(a);
        }
        catch (Missing e) {
          r = "{\"fail\": \"\"}";
        }
        catch (Throwable e) {
          StringWriter w = new StringWriter();
          e.printStackTrace(new PrintWriter(w));
          r = "{\"wrong\": " + lat(w.toString()) + "}";
        }
        if (obs.length() > 0) {
          obs.append(", ");
        }
        obs.append(r);
      }
    }
  }
}
