import fs from "fs"
import path from "path"
import { pathToFileURL } from "url"

const casefile = process.argv[2]
const load = async (name) =>
  (await import(pathToFileURL(path.resolve("src", name + ".js")).href)).default
const vx_core = await load("vx/core")
const pkgs = { "vx/core": vx_core }

const ident = (s) => s.replaceAll("<-", "_from_").replaceAll("-", "_")
const pkgof = async (name) => {
  if (!(name in pkgs)) {
    pkgs[name] = await load(name)
  }
  return pkgs[name]
}
const hex = (s) => Buffer.from(s, "utf8").toString("hex")
const unhex = (s) => Buffer.from(s, "hex").toString("utf8")

async function typeof_(name, prefix) {
  const i = name.lastIndexOf("/")
  const pkg = i < 0 ? vx_core : await pkgof(name.substring(0, i))
  return pkg[prefix + ident(i < 0 ? name : name.substring(i + 1))]
}

async function decode(tokens, pos) {
  const t = tokens[pos.i++]
  const rest = t.substring(1)
  switch (t[0]) {
  case "b": return rest == "1"
  case "i": return parseInt(rest)
  case "f": return parseFloat(rest)
  case "s": return unhex(rest)
  case "E": return await typeof_(rest, "e_")
  case "T": return await typeof_(rest, "t_")
  case "L": case "M": case "S": {
    const [name, n] = rest.split(",")
    const type = await typeof_(name, "t_")
    const vals = []
    for (let k = 0; k < parseInt(n); k++) {
      if (t[0] != "L") {
        const key = unhex(tokens[pos.i++].substring(1))
        vals.push(":" + key)
      }
      vals.push(await decode(tokens, pos))
    }
    return vx_core.f_new_from_type(type, ...vals)
  }
  }
  throw new Error("bad token " + t)
}

const typename = (v) => {
  const t = v["vx_type"]
  if (t && t["vx_value"] && t["vx_value"].name) {
    return t["vx_value"].name
  }
  return "?"
}

const isempty = (v) => {
  if (v === undefined || v === null) return true
  switch (typeof v) {
  case "boolean": return !v
  case "number": return v === 0
  case "string": return v === ""
  }
  if (Array.isArray(v)) return v.length == 0
  if (typeof v == "object" && v["vx_value"] && typeof v["vx_value"] == "object") {
    const tv = v["vx_type"] && v["vx_type"]["vx_value"]
    if (tv && tv.extends == ":map") return Object.keys(v["vx_value"]).length == 0
    if (tv && tv.extends == ":struct") return Object.values(v["vx_value"]).every(isempty)
  }
  return typeof v == "object" && v["vx_value"] === undefined
}

function msgs(v) {
  if (v && typeof v == "object") {
    const mb = v["vx_msgblock"]
    if (mb) {
      return "!" + msgtext(mb)
    }
  }
  return ""
}

function msgtext(mb) {
  const val = mb["vx_value"] || {}
  const out = []
  for (const m of val["msgs"] || []) {
    const mv = m["vx_value"] || {}
    out.push(hex(String(mv["code"] || "")) + "/" + (mv["severity"] || 0))
  }
  for (const b of val["msgblocks"] || []) {
    out.push("(" + msgtext(b) + ")")
  }
  return out.join("+")
}

function dump(v) {
  if (v === undefined) return "UNDEFINED"
  if (v === null) return "NULL"
  switch (typeof v) {
  case "boolean": return v ? "b1" : "b0"
  case "number": return "#" + String(v) + ";"
  case "string": return "s" + hex(v)
  case "function": return "JSFUNC"
  }
  if (Array.isArray(v)) {
    return "[" + typename(v) + " " + v.map(dump).join(",") + "]" + msgs(v)
  }
  const type = v["vx_type"]
  if (type === undefined) return "UNTYPED"
  if (v === vx_core.c_infinity) return "INF"
  if (v === vx_core.c_neginfinity) return "NEGINF"
  if (v === vx_core.c_notanumber) return "NAN"
  const tv = type["vx_value"]
  if (tv && tv.extends == ":map") {
    const val = v["vx_value"] || {}
    const items = Object.keys(val).map((k) => hex(k.startsWith(":") ? k.substring(1) : k) + "=" + dump(val[k])).sort()
    return "{" + tv.name + " " + items.join(",") + "}" + msgs(v)
  }
  if (tv && tv.extends == ":struct" && type !== vx_core.t_typedef) {
    const val = v["vx_value"] || {}
    const items = Object.keys(val).filter((k) => !isempty(val[k])).map((k) => k + "=" + dump(val[k])).sort()
    return "<" + tv.name + " " + items.join(",") + ">" + msgs(v)
  }
  if (type === vx_core.t_type) {
    return "T" + (v["vx_value"] ? v["vx_value"].name : "?")
  }
  if (v["vx_value"] !== undefined && typeof v["vx_value"] != "object") {
    return dump(v["vx_value"]) + msgs(v)
  }
  return "O" + typename(v) + msgs(v)
}

const lines = fs.readFileSync(casefile, "utf8").split("\n")
console.log = () => {}
for (let n = parseInt(process.argv[3] || "0"); n < lines.length; n++) {
  const line = lines[n]
  if (line == "") continue
  const tokens = line.split(" ").filter((s) => s != "")
  const [pkgname, fn] = tokens[0].split("#")
  let text
  try {
    const pkg = await pkgof(pkgname)
    const pos = { i: 1 }
    const args = []
    while (pos.i < tokens.length) {
      args.push(await decode(tokens, pos))
    }
    const before = args.map(dump).join(" ")
    let val = pkg["f_" + ident(fn)](...args)
    if (val instanceof Promise) {
      val = await val
    }
    text = dump(val)
    const after = args.map(dump).join(" ")
    if (before != after) {
      text += " ARGCHANGED " + before + " -> " + after
    }
  } catch (err) {
    text = "EXC " + (err && err.name) + " " + String(err && err.message).replace(/\s+/g, " ").substring(0, 200)
  }
  fs.writeSync(1, "@" + n + " " + text + "\n")
}
