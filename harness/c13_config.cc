// C13: configurations.
#include <fstream>
#include <sstream>
#include "common.h"
#include "config/config_node.hh"
using namespace std;
static const char *PATHS[] = {"a", "results/q7g2", "../x", "a b/c", "d.e/", "./f"};
static bool decode(const YAML::Node &n, ConfigNode &c, bool &threw) { threw = false; try { return YAML::convert<ConfigNode>::decode(n, c); } catch (const YAML::Exception &) { threw = true; return false; } }
static unsigned val(const char *n) { return hse_input(n, 32, P("lo", 0), P("hi", 0xffffffffu)); }
extern "C" void c13_decode() {
  YAML::Node n; unsigned has = 0, v[5]; const char *K[] = {"Prime", "PrimeExponent", "Genus", "PackageSize", "CountExponent"};
  for (unsigned i = 0; i < 5; i++) { v[i] = val(K[i]); if (hse_concrete(hse_input(Nm("has", i), 1, 0, 1))) { has |= 1u << i; n[K[i]] = v[i]; } }
  unsigned marked = hse_concrete(hse_input("marked", 8, 0, 2)); if (marked) n["WithMarkedPoint"] = marked == 2;
  unsigned path = hse_concrete(hse_input("path", 8, 0, P("paths", 2))); if (path) n["ResultPath"] = string(PATHS[path - 1]);
  ConfigNode c; c.with_marked_point = true; c.prime = c.genus = c.count_exponent = 99; bool threw;
  bool ok = decode(n, c, threw), want = (has & 15) == 15 && path;
  hse_assert(!threw, "a configuration is answered with an exception");
  hse_assert(ok == want, want ? "a complete configuration is rejected" : "an incomplete configuration is accepted");
  if (ok) {
    hse_assert((c.prime == v[0]) & (c.prime_exponent == v[1]) & (c.genus == v[2]) & (c.package_size == v[3]), "numbers of a configuration");
    hse_assert(c.count_exponent == (has & 16 ? v[4] : v[2]), "extensions to count");
    hse_assert(c.with_marked_point == (marked == 2), "marked point");
    hse_assert(c.result_path.generic_string() == PATHS[path - 1], "result path");
    hse_obs("prime", c.prime); hse_obs("count", c.count_exponent);
  }
  hse_reach("end");
}
// values which are no numbers of the right kind are not accepted silently
extern "C" void c13_values() {
  static const char *BAD[] = {"-1", "x", "", "7.5", "99999999999", "-7"};
  unsigned key = hse_concrete(hse_input("key", 8, 0, 4)), what = hse_concrete(hse_input("bad", 8, 0, 5));
  YAML::Node n; const char *K[] = {"Prime", "PrimeExponent", "Genus", "PackageSize", "CountExponent"};
  for (unsigned i = 0; i < 5; i++) if (i != key) n[K[i]] = val(K[i]); else n[K[i]] = string(BAD[what]);
  n["ResultPath"] = string("a");
  ConfigNode c; bool threw; bool ok = decode(n, c, threw);
  hse_assert(!ok, "a value that is no number is accepted");
  hse_obs("threw", threw);
  hse_reach("end");
}
extern "C" void c13_roundtrip() {
  ConfigNode c, d; c.prime = val("prime"); c.prime_exponent = val("exponent"); c.genus = val("genus"); c.count_exponent = val("count"); c.package_size = val("package"); c.with_marked_point = hse_concrete(hse_input("marked", 1, 0, 1));
  c.result_path = PATHS[hse_concrete(hse_input("path", 8, 0, 5))];
  d.with_marked_point = !c.with_marked_point; d.count_exponent = 77;
  YAML::Node n = YAML::convert<ConfigNode>::encode(c); bool threw;
  hse_assert(decode(n, d, threw), "an encoded configuration is not accepted");
  hse_assert((c.prime == d.prime) & (c.prime_exponent == d.prime_exponent) & (c.genus == d.genus) & (c.package_size == d.package_size), "numbers change when a configuration is encoded and decoded");
  hse_assert(c.count_exponent == d.count_exponent, "extensions to count change when a configuration is encoded and decoded");
  hse_assert(c.with_marked_point == d.with_marked_point, "marked point changes when a configuration is encoded and decoded");
  hse_assert(c.result_path.generic_string() == d.result_path.generic_string(), "result path changes when a configuration is encoded and decoded");
  hse_obs("prime", d.prime); hse_obs("package", d.package_size);
  hse_reach("end");
}
// configurations with documented keys, read from text
extern "C" void c13_text() {
  unsigned has = hse_concrete(hse_input("keys", 8, 0, 127)), order = hse_concrete(hse_input("order", 1, 0, 1));
  static const char *L[] = {"Prime: 7", "PrimeExponent: 2", "Genus: 3", "ResultPath: q7g2", "PackageSize: 2500", "WithMarkedPoint: true", "CountExponent: 5"};
  string t = "Moduli:\n"; bool first = true; for (unsigned i = 0; i < 7; i++) { unsigned j = order ? 6 - i : i; if (has >> j & 1) { t += string(first ? "  - " : "    ") + L[j] + "\n"; first = false; } }
  t += "  - Prime: 11\n    PrimeExponent: 1\n    Genus: 2\n    ResultPath: q11g2\n    PackageSize: 10\n";
  YAML::Node n = YAML::Load(t); unsigned k = 0, want = has ? 2 : 1;
  hse_assert(n["Moduli"].size() == want, "number of problems");
  for (const auto &m : n["Moduli"]) { ConfigNode c; bool threw; bool ok = decode(m, c, threw); hse_assert(!threw, "a configuration is answered with an exception"); bool last = ++k == want;
    hse_assert(ok == (last || (has & 31) == 31), "which configurations are complete");
    if (!ok) continue;
    if (last) hse_assert(c.prime == 11 && c.prime_exponent == 1 && c.genus == 2 && c.count_exponent == 2 && !c.with_marked_point && c.package_size == 10 && c.result_path == "q11g2", "documented example");
    else hse_assert(c.prime == 7 && c.prime_exponent == 2 && c.genus == 3 && c.count_exponent == (has & 64 ? 5u : 3u) && c.with_marked_point == (has >> 5 & 1) && c.package_size == 2500 && c.result_path == "q7g2", "configuration read from text"); }
  hse_reach("end");
}
extern "C" void c13_verify() {
  ConfigNode c; c.prime = val("prime"); c.prime_exponent = val("exponent"); c.genus = val("genus"); c.count_exponent = val("count"); c.package_size = val("package"); c.with_marked_point = hse_concrete(hse_input("marked", 1, 0, 1));
  static const struct { const char *p; bool ok; } W[] = { {"there", true}, {"there/below", true}, {"new", true}, {"new/two/three", true}, {"file", false}, {"file/below", false} };
  boost::filesystem::create_directories("there"); { ofstream("file") << "x"; }
  unsigned w = hse_concrete(hse_input("path", 8, 0, 5)), out = hse_concrete(hse_input("prepend", 1, 0, 1));
  c.result_path = W[w].p; string full = W[w].p;
  if (out) { if (w < 4) boost::filesystem::create_directories("out"); else { boost::filesystem::create_directories("out"); ofstream("out/file") << "x"; } c.prepend_output_path("out"); full = string("out/") + W[w].p; hse_assert(c.result_path.generic_string() == full, "output path"); }
  bool ok; try { ok = c.verify(); } catch (const boost::filesystem::filesystem_error &) { ok = false; }
  bool pos = (c.prime != 0) & (c.prime_exponent != 0) & (c.genus != 0) & (c.count_exponent != 0) & (c.package_size != 0);
  hse_assert(ok == (pos & W[w].ok), W[w].ok ? "usability of a configuration" : "a configuration without result directory is accepted");
  if (ok) hse_assert(is_directory(path(full)), "result directory was not created");
  hse_obs("ok", ok);
  hse_reach("end");
}
