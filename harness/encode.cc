// standalone/encode.py against the assembler: whole files of generated lines.
#include <sys/wait.h>

#include "pbt.h"
using namespace pbt;

namespace {

struct Line {
  std::string text;      // as written to the input
  std::string before, instr, after;  // for lines with an instruction
  bool has = false;      // an instruction the encoder has to know
  int existing = 0;      // 0: none, 1: right encoding, 2: wrong one
  uint32_t flip = 0;     // bits changed in a wrong encoding
};

std::string slurp(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
void spit(const std::string& p, const std::string& s) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) _exit(3);
  fclose(f);
}
int sh(const std::string& c) {
  int r = system(c.c_str());
  return r < 0 || !WIFEXITED(r) ? -1 : WEXITSTATUS(r);
}

std::string gap(G& g) { return g.chance(1, 5) ? std::string(g.range(1, 3), ' ') : std::string(); }
std::string comma(G& g) { return gap(g) + "," + (g.chance(4, 5) ? " " : gap(g)); }
int reg(G& g) { return g.chance(1, 4) ? g.pick<int>({0, 1, 15, 16, 30, 31}) : static_cast<int>(g.range(0, 31)); }

std::string dot(G& g) {
  std::string s = g.boolean() ? "udot" : "sdot";
  s += std::string(g.chance(1, 5) ? g.range(1, 4) : 1, ' ');
  int a = reg(g), b = reg(g), c = reg(g);
  bool el = g.boolean();
  s += strf("v%d.4s", a) + comma(g) + strf("v%d.16b", b) + comma(g);
  return s + (el ? strf("v%d.4b[%d]", c, static_cast<int>(g.draw(4))) : strf("v%d.16b", c));
}

// Lines that are none of the encoder's business.
std::string other(G& g) {
  int a = reg(g), b = reg(g), c = reg(g);
  switch (g.draw(14)) {
    case 0: return "";
    case 1: return strf("        \"fmla v%d.4s, v%d.4s, v%d.s[%d]\\n\"", a, b, c, static_cast<int>(g.draw(4)));
    case 2: return strf("\"udot v%d.2s, v%d.8b, v%d.8b\\n\"", a, b, c);
    case 3: return strf("        \"ld1 {v%d.16b}, [%%[lhs_ptr]], #16\\n\"", a);
    case 4: return strf("  .word 0x%08x", static_cast<unsigned>(g.draw(1u << 31)) | 1u);
    case 5: return "// dot products: sdot and udot of four bytes";
    case 6: return strf("macro_udot v%d.4s, v%d.16b, v%d.16b", a, b, c);
    case 7: return strf("\"udot v%d.4s, v%d.16b, v%d.8b\\n\"", a, b, c);
    case 8: return strf("\"mla v%d.4s, v%d.4s, v%d.4s\\n\"", a, b, c);
    case 9: return strf("\"udot v%d.2s, v%d.8b, v%d.4b[1]\\n\"", a, b, c);
    case 10: return strf("\"sdot z%d.s, z%d.b, z%d.b\\n\"", a, b, c);
    case 11: return strf("\"umull v%d.8h, v%d.8b, v%d.8b\\n\"", a, b, c);
    case 12: return strf("  int udot = v%d; // 4s 16b", a);
    default: return "}";
  }
}

Line gen_line(G& g) {
  Line l;
  if (g.chance(1, 4)) {
    l.text = other(g);
    return l;
  }
  l.has = true;
  l.instr = dot(g);
  switch (g.draw(4)) {
    case 0: l.before = "        \""; l.after = "\\n\""; break;
    case 1: l.before = "\""; l.after = "\\n\"  // accumulate"; break;
    case 2: l.before = "  "; l.after = ""; break;
    default: l.before = "\t\""; l.after = "\\n\\t\" \\"; break;
  }
  if (g.chance(1, 3)) {
    l.existing = g.boolean() ? 1 : 2;
    if (l.existing == 2) l.flip = 1u << g.draw(31);
    if (l.flip && g.boolean()) l.flip |= 1u << g.draw(31);
  }
  return l;
}

std::string word(uint32_t v, const std::string& i) { return strf(".word 0x%x  // %s", v, i.c_str()); }

void prop_encode(G& g) {
  bool fix = g.boolean(), no_newline = g.chance(1, 6), crlf = g.chance(1, 10);
  int n = g.range(1, 60);
  std::vector<Line> ls;
  for (int i = 0; i < n; i++) ls.push_back(gen_line(g));
  std::string base = strf("enc.%d.", static_cast<int>(getpid()));
  // The assembler says what each instruction is.
  std::string as = ".arch armv8.2-a+dotprod\n";
  int insns = 0;
  for (auto& l : ls)
    if (l.has) as += l.instr + "\n", insns++;
  std::vector<uint32_t> code;
  if (insns) {
    spit(base + "s", as);
    if (sh("aarch64-linux-gnu-as -o " + base + "o " + base + "s 2>" + base + "err") ||
        sh("aarch64-linux-gnu-objcopy -O binary -j .text " + base + "o " + base + "bin")) {
      printf("the assembler refused:\n%s\n%s\n", as.c_str(), slurp(base + "err").c_str());
      fflush(stdout);
      _exit(3);
    }
    std::string b = slurp(base + "bin");
    for (size_t i = 0; i + 4 <= b.size(); i += 4)
      code.push_back((b[i] & 255) | (b[i + 1] & 255) << 8 | (b[i + 2] & 255) << 16 | static_cast<uint32_t>(b[i + 3] & 255) << 24);
    if (static_cast<int>(code.size()) != insns) _exit(3);
  }
  std::string in, want, first;
  bool wrong = false;
  int k = 0, enc = 0, wrongs = 0;
  const char* nl = crlf ? "\r\n" : "\n";
  for (int i = 0; i < n; i++) {
    Line& l = ls[i];
    std::string out;
    if (l.has) {
      uint32_t v = code[k++];
      if (l.existing) {
        uint32_t have = v ^ l.flip;
        l.text = l.before + word(have, l.instr) + l.after;
        out = l.flip && fix ? l.before + word(v, l.instr) + l.after : l.text;
        if (l.flip) wrong = true, wrongs++;
      } else {
        l.text = l.before + l.instr + l.after;
        out = l.before + word(v, l.instr) + l.after;
      }
      enc++;
      if (first.empty()) first = l.text;
    } else {
      out = l.text;
    }
    const char* e = i + 1 == n && no_newline ? "" : nl;
    in += l.text + e;
    want += out + e;
  }
  g.describe(strf("%d lines, %d instructions, %d wrong encodings, fix=%d crlf=%d last=%d; first: %s", n, enc, wrongs, fix, crlf, no_newline,
                  first.c_str()));
  g.label(wrong ? (fix ? "existing:fixed" : "existing:reported") : "existing:none wrong");
  g.nontrivial(enc > 0);
  spit(base + "in", in);
  int rc = sh(std::string("python3 -B ") + ENCODE + (fix ? g.chance(1, 2) ? " --fix" : " -f" : "") + " <" + base + "in >" + base + "out 2>" + base + "err");
  std::string got = slurp(base + "out"), err = slurp(base + "err");
  int want_rc = wrong && !fix;
  const char* ex[] = {"s", "o", "bin", "in", "out", "err"};
  for (const char* e : ex) unlink((base + e).c_str());
  if ((rc != 0) != (want_rc != 0)) g.fail("exit status %d, expected %d: %s", rc, want_rc, err.substr(0, 300).c_str());
  // Line ends may be normalized, nothing else.
  auto norm = [](std::string s) {
    std::string r;
    for (char c : s)
      if (c != '\r') r += c;
    return r;
  };
  got = norm(got);
  want = norm(want);
  if (got != want) {
    size_t p = 0;
    while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
    size_t b = p ? want.rfind('\n', p - 1) : std::string::npos;
    b = b == std::string::npos ? 0 : b + 1;
    g.fail("output differs: got '%s' expected '%s'", got.substr(std::min(b, got.size()), 90).c_str(), want.substr(b, 90).c_str());
  }
  if (wrong && !fix && err.empty()) g.fail("a wrong encoding was not reported");
  g.add_evals(n);
}
}  // namespace

int main(int argc, char** argv) { return run_main(argc, argv, {{"encode", prop_encode}}); }
