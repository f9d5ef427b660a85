import com.vxlisp.vx.Core;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.CompletableFuture;

public class Driver {

  static Map<String, Class<?>> classes = new HashMap<>();
  static Map<String, Method> methods = new HashMap<>();

  static String ident(String s) {
    return s.replace("<-", "_from_").replace("-", "_");
  }

  static Class<?> classof(String pkg) throws Exception {
    Class<?> c = classes.get(pkg);
    if (c == null) {
      int i = pkg.lastIndexOf('/');
      String name = pkg.substring(i + 1);
      name = name.substring(0, 1).toUpperCase() + name.substring(1);
      c = Class.forName("com.vxlisp." + pkg.substring(0, i).replace('/', '.') + "." + name);
      classes.put(pkg, c);
    }
    return c;
  }

  static Core.Type_any field(String name, String prefix) throws Exception {
    int i = name.lastIndexOf('/');
    String pkg = i < 0 ? "vx/core" : name.substring(0, i);
    Field f = classof(pkg).getField(prefix + ident(name.substring(i + 1)));
    return (Core.Type_any)f.get(null);
  }

  static String hex(String s) {
    StringBuilder sb = new StringBuilder();
    for (byte b : s.getBytes(StandardCharsets.UTF_8)) {
      sb.append(String.format("%02x", b & 255));
    }
    return sb.toString();
  }

  static String unhex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) {
      b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    }
    return new String(b, StandardCharsets.UTF_8);
  }

  static String[] tokens;
  static int pos;

  static Core.Type_any decode() throws Exception {
    String t = tokens[pos++];
    String rest = t.substring(1);
    switch (t.charAt(0)) {
    case 'b': return Core.vx_new_boolean(rest.equals("1"));
    case 'i': return Core.vx_new_int(Integer.parseInt(rest));
    case 'f': return Core.vx_new_float(Float.parseFloat(rest));
    case 's': return Core.vx_new_string(unhex(rest));
    case 'E': return field(rest, "e_");
    case 'T': return field(rest, "t_");
    default: {
      int c = rest.lastIndexOf(',');
      Core.Type_any type = field(rest.substring(0, c), "t_");
      int n = Integer.parseInt(rest.substring(c + 1));
      List<Object> vals = new ArrayList<>();
      for (int k = 0; k < n; k++) {
        if (t.charAt(0) != 'L') {
          vals.add(Core.vx_new_string(":" + unhex(tokens[pos++].substring(1))));
        }
        vals.add(decode());
      }
      return type.vx_new(vals.toArray());
    }
    }
  }

  static boolean isempty(Core.Type_any v) {
    if (v == null) return true;
    if (v instanceof Core.Type_boolean) return !((Core.Type_boolean)v).vx_boolean();
    if (v instanceof Core.Type_int) return special(v).equals("") && ((Core.Type_int)v).vx_int() == 0;
    if (v instanceof Core.Type_float) return special(v).equals("") && ((Core.Type_float)v).vx_float() == 0;
    if (v instanceof Core.Type_string) return ((Core.Type_string)v).vx_string().equals("");
    if (v instanceof Core.Type_list) return ((Core.Type_list)v).vx_list().isEmpty();
    if (v instanceof Core.Type_map) return ((Core.Type_map)v).vx_map().isEmpty();
    if (v instanceof Core.Type_struct) {
      for (Core.Type_any x : ((Core.Type_struct)v).vx_map().values()) {
        if (!isempty(x)) return false;
      }
      return true;
    }
    return v == v.vx_empty();
  }

  static String special(Core.Type_any v) {
    if (v == Core.c_infinity) return "INF";
    if (v == Core.c_neginfinity) return "NEGINF";
    if (v == Core.c_notanumber) return "NAN";
    return "";
  }

  static String name(Core.Type_any v) {
    return v.vx_typedef().name().vx_string();
  }

  static String msgtext(Core.Type_msgblock mb) {
    List<String> out = new ArrayList<>();
    for (Core.Type_any a : mb.msgs().vx_list()) {
      Core.Type_msg m = (Core.Type_msg)a;
      out.add(hex(m.code().vx_string()) + "/" + m.severity().vx_int());
    }
    for (Core.Type_any b : mb.msgblocks().vx_list()) {
      out.add("(" + msgtext((Core.Type_msgblock)b) + ")");
    }
    return String.join("+", out);
  }

  static String msgs(Core.Type_any v) {
    Core.Type_msgblock mb = v.vx_msgblock();
    if (mb == null || mb == Core.e_msgblock || isempty(mb)) return "";
    return "!" + msgtext(mb);
  }

  static String dump(Core.Type_any v) {
    if (v == null) return "NULL";
    String sp = special(v);
    if (!sp.equals("")) return sp;
    if (v instanceof Core.Type_boolean) return (((Core.Type_boolean)v).vx_boolean() ? "b1" : "b0") + msgs(v);
    if (v instanceof Core.Type_int) return "#" + ((Core.Type_int)v).vx_int() + ";" + msgs(v);
    if (v instanceof Core.Type_float) return "#" + ((Core.Type_float)v).vx_float() + ";" + msgs(v);
    if (v instanceof Core.Type_decimal) return "D" + ((Core.Type_decimal)v).vx_string() + msgs(v);
    if (v instanceof Core.Type_string) return "s" + hex(((Core.Type_string)v).vx_string()) + msgs(v);
    if (v instanceof Core.Type_list) {
      List<String> items = new ArrayList<>();
      for (Core.Type_any x : ((Core.Type_list)v).vx_list()) items.add(dump(x));
      return "[" + name(v) + " " + String.join(",", items) + "]" + msgs(v);
    }
    if (v instanceof Core.Type_map) {
      List<String> items = new ArrayList<>();
      for (Map.Entry<String, Core.Type_any> e : ((Core.Type_map)v).vx_map().entrySet()) {
        String k = e.getKey();
        if (k.startsWith(":")) k = k.substring(1);
        items.add(hex(k) + "=" + dump(e.getValue()));
      }
      Collections.sort(items);
      return "{" + name(v) + " " + String.join(",", items) + "}" + msgs(v);
    }
    if (v instanceof Core.Type_struct && !(v instanceof Core.Type_typedef)) {
      List<String> items = new ArrayList<>();
      for (Map.Entry<String, Core.Type_any> e : ((Core.Type_struct)v).vx_map().entrySet()) {
        String k = e.getKey();
        if (k.startsWith(":")) k = k.substring(1);
        if (!isempty(e.getValue())) items.add(k + "=" + dump(e.getValue()));
      }
      Collections.sort(items);
      return "<" + name(v) + " " + String.join(",", items) + ">" + msgs(v);
    }
    return "O" + name(v) + msgs(v);
  }

  public static void main(String[] argv) throws Exception {
    java.io.PrintStream out = new java.io.PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), false, "UTF-8");
    System.setOut(new java.io.PrintStream(java.io.OutputStream.nullOutputStream()));
    System.setErr(new java.io.PrintStream(java.io.OutputStream.nullOutputStream()));
    StringBuilder sb = new StringBuilder();
    int n = -1;
    int start = argv.length > 1 ? Integer.parseInt(argv[1]) : 0;
    for (String line : Files.readAllLines(Paths.get(argv[0]))) {
      n++;
      if (line.equals("") || n < start) continue;
      tokens = line.trim().split(" +");
      pos = 1;
      String text;
      try {
        Method m = methods.get(tokens[0]);
        if (m == null) {
          int h = tokens[0].indexOf('#');
          String fn = "f_" + ident(tokens[0].substring(h + 1));
          for (Method mm : classof(tokens[0].substring(0, h)).getMethods()) {
            if (mm.getName().equals(fn)) m = mm;
          }
          if (m == null) throw new Exception("no function " + tokens[0]);
          methods.put(tokens[0], m);
        }
        List<Object> args = new ArrayList<>();
        List<String> before = new ArrayList<>();
        while (pos < tokens.length) {
          Core.Type_any a = decode();
          args.add(a);
          before.add(dump(a));
        }
        Object val = m.invoke(null, args.toArray());
        if (val instanceof CompletableFuture) {
          val = ((CompletableFuture<?>)val).get();
        }
        text = dump((Core.Type_any)val);
        List<String> after = new ArrayList<>();
        for (Object a : args) after.add(dump((Core.Type_any)a));
        if (!before.equals(after)) {
          text += " ARGCHANGED " + String.join(" ", before) + " -> " + String.join(" ", after);
        }
      } catch (InvocationTargetException e) {
        Throwable t = e.getCause();
        text = "EXC " + t.getClass().getSimpleName() + " " + ("" + t.getMessage()).replaceAll("\\s+", " ");
      } catch (Throwable t) {
        text = "EXC " + t.getClass().getSimpleName() + " " + ("" + t.getMessage()).replaceAll("\\s+", " ");
      }
      if (text.startsWith("EXC") && text.length() > 220) text = text.substring(0, 220);
      sb.append("@").append(n).append(" ").append(text).append("\n");
      out.print(sb);
      out.flush();
      sb.setLength(0);
    }
    out.print(sb);
    out.flush();
    System.exit(0);
  }
}
