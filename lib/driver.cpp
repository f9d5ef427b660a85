#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

static std::map<std::string, vx_core::Type_any> vf_t, vf_e;
static std::map<std::string, vf_fn> vf_m;
static std::vector<std::string> vf_tok;
static size_t vf_pos;

static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
static std::string unhex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
  return o;
}
static vx_core::Type_any need(std::map<std::string, vx_core::Type_any>& m, const std::string& n) {
  auto it = m.find(n);
  if (it == m.end()) { fprintf(stderr, "driver: unknown type %s\n", n.c_str()); _exit(97); }
  return it->second;
}
static vx_core::Type_any decode() {
  std::string t = vf_tok[vf_pos++];
  std::string rest = t.substr(1);
  switch (t[0]) {
  case 'b': return vx_core::vx_new_boolean(rest == "1");
  case 'i': return vx_core::vx_new_int(atol(rest.c_str()));
  case 'f': return vx_core::vx_new_float(strtof(rest.c_str(), 0));
  case 's': return vx_core::vx_new_string(unhex(rest));
  case 'E': return need(vf_e, rest);
  case 'T': return need(vf_t, rest);
  }
  size_t c = rest.rfind(',');
  vx_core::Type_any type = need(vf_t, rest.substr(0, c));
  int n = atoi(rest.substr(c + 1).c_str());
  vx_core::vx_Type_listany vals;
  for (int k = 0; k < n; k++) {
    if (t[0] != 'L') vals.push_back(vx_core::vx_new_string(":" + unhex(vf_tok[vf_pos++].substr(1))));
    vals.push_back(decode());
  }
  return type->vx_new(vals);
}
static std::string special(vx_core::Type_any v) {
  if (v == (vx_core::Type_any)vx_core::c_infinity) return "INF";
  if (v == (vx_core::Type_any)vx_core::c_neginfinity) return "NEGINF";
  if (v == (vx_core::Type_any)vx_core::c_notanumber) return "NAN";
  return "";
}
static bool isempty(vx_core::Type_any v) {
  if (!v) return true;
  if (auto x = dynamic_cast<vx_core::Type_boolean>(v)) return !x->vx_boolean();
  if (auto x = dynamic_cast<vx_core::Type_int>(v)) return special(v) == "" && x->vx_int() == 0;
  if (auto x = dynamic_cast<vx_core::Type_float>(v)) return x->vx_float() == 0;
  if (auto x = dynamic_cast<vx_core::Type_string>(v)) return x->vx_string() == "";
  if (auto x = dynamic_cast<vx_core::Type_list>(v)) return x->vx_list().empty();
  if (auto x = dynamic_cast<vx_core::Type_map>(v)) return x->vx_map().empty();
  if (auto x = dynamic_cast<vx_core::Type_struct>(v)) {
    for (auto& p : x->vx_map()) if (!isempty(p.second)) return false;
    return true;
  }
  return v == v->vx_empty();
}
static std::string tname(vx_core::Type_any v) {
  vx_core::Type_typedef td = v->vx_typedef();
  std::string o = td->name()->vx_string();
  vx_core::vx_release(td);
  return o;
}
static std::string msgtext(vx_core::Type_msgblock mb) {
  std::string o;
  for (vx_core::Type_any a : mb->msgs()->vx_list()) {
    vx_core::Type_msg m = dynamic_cast<vx_core::Type_msg>(a);
    if (o != "") o += "+";
    o += hex(m->code()->vx_string()) + "/" + std::to_string(m->severity()->vx_int());
  }
  for (vx_core::Type_any a : mb->msgblocks()->vx_list()) {
    if (o != "") o += "+";
    o += "(" + msgtext(dynamic_cast<vx_core::Type_msgblock>(a)) + ")";
  }
  return o;
}
static std::string msgs(vx_core::Type_any v) {
  vx_core::Type_msgblock mb = v->vx_msgblock();
  if (!mb || mb == vx_core::e_msgblock || isempty(mb)) return "";
  return "!" + msgtext(mb);
}
static std::string join(std::vector<std::string>& v) {
  std::string o;
  for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; }
  return o;
}
static std::string dump(vx_core::Type_any v) {
  if (!v) return "NULL";
  std::string sp = special(v);
  if (sp != "") return sp;
  char buf[64];
  if (auto x = dynamic_cast<vx_core::Type_boolean>(v)) return std::string(x->vx_boolean() ? "b1" : "b0") + msgs(v);
  if (auto x = dynamic_cast<vx_core::Type_int>(v)) { snprintf(buf, 64, "#%ld;", (long)x->vx_int()); return buf + msgs(v); }
  if (auto x = dynamic_cast<vx_core::Type_float>(v)) { snprintf(buf, 64, "#%.9g;", (double)x->vx_float()); return buf + msgs(v); }
  if (auto x = dynamic_cast<vx_core::Type_string>(v)) return "s" + hex(x->vx_string()) + msgs(v);
  if (auto x = dynamic_cast<vx_core::Type_list>(v)) {
    std::vector<std::string> items;
    for (auto a : x->vx_list()) items.push_back(dump(a));
    return "[" + tname(v) + " " + join(items) + "]" + msgs(v);
  }
  if (auto x = dynamic_cast<vx_core::Type_map>(v)) {
    std::vector<std::string> items;
    for (auto& p : x->vx_map()) {
      std::string k = p.first;
      if (k != "" && k[0] == ':') k = k.substr(1);
      items.push_back(hex(k) + "=" + dump(p.second));
    }
    std::sort(items.begin(), items.end());
    return "{" + tname(v) + " " + join(items) + "}" + msgs(v);
  }
  if (auto x = dynamic_cast<vx_core::Type_struct>(v)) {
    if (!dynamic_cast<vx_core::Type_typedef>(v)) {
      std::vector<std::string> items;
      for (auto& p : x->vx_map()) {
        std::string k = p.first;
        if (k != "" && k[0] == ':') k = k.substr(1);
        if (!isempty(p.second)) items.push_back(k + "=" + dump(p.second));
      }
      std::sort(items.begin(), items.end());
      return "<" + tname(v) + " " + join(items) + ">" + msgs(v);
    }
  }
  return "O" + tname(v) + msgs(v);
}

int main(int argc, char** argv) {
  vf_register(vf_m);
  vf_types(vf_t, vf_e);
  std::ifstream in(argv[1]);
  int start = argc > 2 ? atoi(argv[2]) : 0;
  std::string line;
  int n = -1;
  FILE* out = fdopen(dup(1), "w");
  std::cout.setstate(std::ios_base::failbit);
  while (std::getline(in, line)) {
    n++;
    if (line == "" || n < start) continue;
    vf_tok.clear();
    std::istringstream ss(line);
    std::string w;
    while (ss >> w) vf_tok.push_back(w);
    vf_pos = 1;
    std::string text;
    auto it = vf_m.find(vf_tok[0]);
    if (it == vf_m.end()) {
      text = "EXC nofunc";
    } else {
      long rc0 = vx_core::refcount;
      std::vector<vx_core::Type_any> args;
      std::string before, after;
      while (vf_pos < vf_tok.size()) {
        vx_core::Type_any a = decode();
        vx_core::vx_reserve(a);
        args.push_back(a);
        before += dump(a) + " ";
      }
      try {
        vx_core::Type_any val = it->second(args);
        text = dump(val);
        for (auto a : args) after += dump(a) + " ";
        vx_core::vx_release_except(val, NULL);
      } catch (const std::exception& e) {
        text = std::string("EXC ") + e.what();
        after = before;
      }
      vx_core::vx_release_one(args);
      long rc1 = vx_core::refcount;
      if (before != after) text += " ARGCHANGED " + before + "-> " + after;
      if (rc1 != rc0) text += " LEAK" + std::to_string(rc1 - rc0);
    }
    fprintf(out, "@%d %s\n", n, text.c_str());
    fflush(out);
  }
  fflush(out);
  _exit(0);
}
