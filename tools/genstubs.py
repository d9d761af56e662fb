"""Generate C++ stub headers for ROS interface packages and for the parameter library.

Inputs: /verif/stubs/msgs/defs.txt (third-party messages), the .msg/.srv files and the
controller_manager_parameters.yaml of the analysed repository.
"""
import os
import re
import sys

PRIM = {
    "bool": "bool", "byte": "uint8_t", "char": "uint8_t", "int8": "int8_t", "uint8": "uint8_t",
    "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t",
    "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double",
    "string": "std::string",
}


def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    n = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n)
    return n.lower()


def parse_fields(text):
    consts, fields = [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"^([\w/]+)(\[\d*\]|\[<=\d+\])?\s+(\w+)\s*(?:=\s*(\S+)|\s+(\S+))?$", line)
        if not m:
            continue
        t, arr, name, const, default = m.groups()
        if const is not None:
            consts.append((t, name, const))
        else:
            fields.append((t, arr, name, default))
    return consts, fields


def cxx_type(t, pkg):
    if t in PRIM:
        return PRIM[t], None
    parts = t.split("/")
    if len(parts) == 1:
        p, n = pkg, parts[0]
    else:
        p, n = parts[0], parts[-1]
    return f"{p}::msg::{n}", f"{p}/msg/{snake(n)}.hpp"


def struct(name, text, pkg):
    consts, fields = parse_fields(text)
    incs = []
    out = [f"struct {name}\n{{\n  using SharedPtr = std::shared_ptr<{name}>;\n"
           f"  using ConstSharedPtr = std::shared_ptr<const {name}>;\n"
           f"  using UniquePtr = std::unique_ptr<{name}>;\n"]
    for t, n, v in consts:
        out.append(f"  static constexpr {PRIM[t]} {n} = {v};\n")
    for t, arr, n, d in fields:
        ct, inc = cxx_type(t, pkg)
        if inc:
            incs.append(inc)
        if arr is None:
            full = ct
            init = f" = {d}" if d else "{}"
        elif re.match(r"\[\d+\]", arr):
            full = f"std::array<{ct}, {arr[1:-1]}>"
            init = "{}"
        else:
            full = f"std::vector<{ct}>"
            init = "{}"
        out.append(f"  using _{n}_type = {full};\n  {full} {n}{init};\n")
    ops = " && ".join(f"{n} == o.{n}" for _, _, n, _ in fields) or "true"
    out.append(f"  bool operator==(const {name} & o) const {{ (void)o; return {ops}; }}\n")
    out.append(f"  bool operator!=(const {name} & o) const {{ return !(*this == o); }}\n")
    out.append("};\n")
    return "".join(out), incs


HDR = ("#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n"
       "#include <vector>\n")


def write(out, rel, text):
    p = os.path.join(out, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def gen_msg(out, pkg, name, text):
    body, incs = struct(name, text, pkg)
    t = HDR + "".join(f'#include "{i}"\n' for i in sorted(set(incs)))
    t += f"namespace {pkg}::msg\n{{\n{body}}}\n"
    write(out, f"{pkg}/msg/{snake(name)}.hpp", t)


def gen_srv(out, pkg, name, text):
    parts = re.split(r"^---\s*$", text, flags=re.M)
    req, inc1 = struct(f"{name}_Request", parts[0], pkg)
    res, inc2 = struct(f"{name}_Response", parts[1], pkg)
    t = HDR + "".join(f'#include "{i}"\n' for i in sorted(set(inc1 + inc2)))
    t += f"namespace {pkg}::srv\n{{\n{req}{res}struct {name}\n{{\n  using Request = {name}_Request;\n"
    t += f"  using Response = {name}_Response;\n}};\n}}\n"
    write(out, f"{pkg}/srv/{snake(name)}.hpp", t)


PT = {"int": "int64_t", "bool": "bool", "double": "double", "string": "std::string",
      "string_array": "std::vector<std::string>", "double_array": "std::vector<double>",
      "int_array": "std::vector<int64_t>"}


def cxx_val(t, v):
    if v is None:
        return "{}"
    if t == "bool":
        return " = true" if v else " = false"
    if t in ("int", "double"):
        return f" = {v}"
    if t == "string":
        return f' = "{v}"'
    return "{}"


def param_struct(name, d, ind):
    pad = "  " * ind
    out = f"{pad}struct {name}\n{pad}{{\n"
    for k, v in d.items():
        if isinstance(v, dict) and "type" in v and isinstance(v["type"], str):
            out += f"{pad}  {PT[v['type']]} {k}{cxx_val(v['type'], v.get('default_value'))};\n"
        else:
            sub = "".join(x.capitalize() for x in k.split("_"))
            out += param_struct(sub, v, ind + 1)
            out = out.rstrip("\n") + "\n"
            out += f"{pad}  {sub} {k};\n"
    out += f"{pad}}};\n"
    return out


def gen_params(out, yaml_path):
    import yaml
    with open(yaml_path) as f:
        d = yaml.safe_load(f)["controller_manager"]
    body = param_struct("Params", d, 0)
    t = HDR + '#include "rclcpp/rclcpp.hpp"\nnamespace controller_manager\n{\n' + body + """
class ParamListener
{
public:
  ParamListener(
    rclcpp::node_interfaces::NodeParametersInterface::SharedPtr, rclcpp::Logger = rclcpp::Logger(),
    const std::string & = "") {}
  Params get_params() const { return params_; }
  bool is_old(const Params &) const { return false; }
  bool try_get_params(Params & p) const { p = params_; return true; }
  void refresh_dynamic_parameters() {}
  Params params_;
};
}
"""
    write(out, "controller_manager/controller_manager_parameters.hpp", t)


def main(repo, defs, out):
    cur, buf = None, []
    with open(defs) as f:
        lines = f.read().splitlines()
    items = []
    for line in lines:
        if line.startswith("== "):
            if cur:
                items.append((cur, "\n".join(buf)))
            cur, buf = line[3:].strip(), []
        else:
            buf.append(line)
    if cur:
        items.append((cur, "\n".join(buf)))
    for cur, text in items:
        pkg, _, name = cur.split("/")
        gen_msg(out, pkg, name, text)
    base = os.path.join(repo, "controller_manager_msgs")
    n = len(items)
    for sub, fn in (("msg", gen_msg), ("srv", gen_srv)):
        d = os.path.join(base, sub)
        for f in sorted(os.listdir(d)):
            if f.endswith("." + sub):
                with open(os.path.join(d, f)) as fh:
                    fn(out, "controller_manager_msgs", f[: -len(sub) - 1], fh.read())
                n += 1
    gen_params(out, os.path.join(
        repo, "controller_manager/src/controller_manager_parameters.yaml"))
    return n


if __name__ == "__main__":
    print(main(sys.argv[1], sys.argv[2], sys.argv[3]))
