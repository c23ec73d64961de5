"""Writes harness/c17n.hpp: a reflected struct for every number of macro arguments from 1 to 64."""
o = ["// Written by tools/gen_c17n.py: reflected structs of every size.", "#pragma once"]
for n in range(1, 65):
    f = ["f%d" % i for i in range(n)]
    o.append("#if HX_PART == %d" % (n % 4))
    o.append("struct S%d { static const int n = %d; int %s;\nMEO_JSONIZATION(%s)\nint& at(int i) { int* p[] = { %s }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };"
             % (n, n, ", ".join("%s = %d" % (x, 1000 + i) for i, x in enumerate(f)), ", ".join(f), ", ".join("&" + x for x in f)))
    o.append("#endif")
for n in (3, 4, 9, 17, 32, 33, 63, 64):
    # one optional field, one with a key of its own; the two tags are arguments as well
    m = n - 2
    f = ["f%d" % i for i in range(m)]
    a = list(f)
    k, q = m // 2, m - 1
    a[q] = 'MEO_KEY("other") ' + a[q]
    a[k] = "MEO_OPT " + a[k]
    o.append("#if HX_PART == %d" % (n % 4))
    o.append("struct T%d { static const int n = %d; int %s;\nMEO_JSONIZATION(%s)\nint& at(int i) { int* p[] = { %s }; return *p[i]; } static bool opt(int i) { return i == %d; } static std::string key(int i) { return i == %d ? std::string(\"other\") : field(i); } };"
             % (n, m, ", ".join("%s = %d" % (x, 1000 + i) for i, x in enumerate(f)), ", ".join(a), ", ".join("&" + x for x in f), k, q))
    o.append("#endif")
for p in range(4):
    o.append("#if HX_PART == %d\n#define SIZES(X) %s\n#endif" % (p, " ".join(["X(%d, S%d)" % (n, n) for n in range(1, 65) if n % 4 == p] + ["X(%d, T%d)" % (100 + n, n) for n in (3, 4, 9, 17, 32, 33, 63, 64) if n % 4 == p])))
open("/verif/harness/c17n.hpp", "w").write("\n".join(o) + "\n")
