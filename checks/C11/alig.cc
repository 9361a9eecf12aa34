// Alignment files: reading, printing, combining.
#include "sym.h"
#include "AlignmentContainer.h"
#include "AlignmentExtractor.h"
#include "printAligFuncs.h"
#include <sstream>
#include <fstream>
#include <map>
#ifndef CELLS
#define CELLS 4
#endif
#ifndef NREC
#define NREC 2
#endif
typedef std::vector<std::string> SV;
struct Rec { SV ns, t; WordAligMatrix m; int reps; };
static std::string nm(const char* a, int i, int j = -1) { std::string s(a); s += char('0' + i); if (j >= 0) s += char('0' + j); return s; }
static void links(const char* n, Rec& r, int top) { unsigned I = r.ns.size() - 1, J = r.t.size(); r.m.init(I, J); for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.m.setValue(i, j, (unsigned)sym::choice(nm(n, i, j).c_str(), 0, top)); }
static Rec rec(const char* n, int lo, int hi, int maxc, int top, bool same) { Rec r; int I = sym::choice((std::string(n) + "I").c_str(), lo, hi), J = sym::choice((std::string(n) + "J").c_str(), lo, hi); ASSUME(I * J <= maxc); r.reps = 1; r.ns.push_back("NULL"); for (int i = 0; i < I; i++) r.ns.push_back(same ? "a" : nm("s", i)); for (int j = 0; j < J; j++) r.t.push_back(same ? "b" : nm("t", j)); links(n, r, top); return r; }
static bool eqm(WordAligMatrix a, const WordAligMatrix& b) { if (a.get_I() != b.get_I() || a.get_J() != b.get_J()) return false; for (unsigned i = 0; i < a.get_I(); i++) for (unsigned j = 0; j < a.get_J(); j++) if (a.getValue(i, j) != b.getValue(i, j)) return false; return true; }
static void expect(AlignmentExtractor& e, const Rec& r, bool reps) { CHECK(e.get_t() == r.t, "target sentences are read back"); CHECK(e.get_ns() == r.ns, "source sentences are read back"); CHECK(eqm(e.get_wamatrix(), r.m), "links are read back"); if (reps) CHECK(e.get_numReps() == r.reps, "repetitions are read back"); }
static std::string head(int reps, int style) { if (style == 0) return "#"; if (style == 1) { std::ostringstream o; o << "# " << reps; return o.str(); } if (style == 2) return "# Sentence pair (1) source length 2"; return "<ALMOHADILLA>"; }
static void giza(std::string& out, const Rec& r, const std::string& h) { std::ostringstream o; printAlignmentInGIZAFormat(o, r.ns, r.t, r.m, h.c_str()); out += o.str(); }
HARNESS(h_giza) { std::string f; Rec a = rec("a", 0, 4, CELLS, 2, sym::flag("same")); int st = a.m.get_I() * a.m.get_J() == 4 ? 1 : sym::choice("style", 0, 3); a.reps = st == 1 ? (a.m.get_I() * a.m.get_J() == 4 ? 14 : sym::choice("reps", 0, 3) * 7) : 1; Rec b = rec("b", 1, 1, 1, 1, false); b.reps = 3; bool c = sym::flag("cfile");
  if (c) { FILE* p = fopen("al", "w"); printAlignmentInGIZAFormat(p, a.ns, a.t, a.m, head(a.reps, st).c_str()); printAlignmentInGIZAFormat(p, b.ns, b.t, b.m, "# 3"); fclose(p); } else { giza(f, a, head(a.reps, st)); giza(f, b, "# 3"); sym::putFile("al", f); }
  AlignmentExtractor e; CHECK(e.open("al") == THOT_OK, "files open"); CHECK(e.getNextAlignment(), "each record is found"); expect(e, a, true); SV s(a.ns.begin() + 1, a.ns.end()); CHECK(e.get_s() == s, "the source sentence has no null word");
  e.transposeAlig(); CHECK(e.get_s() == a.t && e.get_t() == s, "transposing swaps the sentences"); WordAligMatrix m(a.m); m.transpose(); CHECK(eqm(e.get_wamatrix(), m), "transposing swaps the links");
  CHECK(e.getNextAlignment(), "each record is found"); expect(e, b, true); CHECK(!e.getNextAlignment(), "the file ends after its records"); CHECK(e.rewind() == THOT_OK, "rewinding works"); CHECK(e.getNextAlignment(), "each record is found"); expect(e, a, true); e.close(); COVER("giza"); }
// hand-written records: any order, repeated and spaced link lists
HARNESS(h_parse) { int I = sym::choice("I", 0, 2), J = sym::choice("J", 1, 3); std::string l1 = "NULL ({ "; Rec r; r.reps = 1; r.ns.push_back("NULL"); for (int j = 0; j < J; j++) r.t.push_back(nm("w", j)); WordAligMatrix m(I, J); if (sym::flag("nulls")) l1 += "1 2 "; l1 += "}) ";
  for (int i = 0; i < I; i++) { r.ns.push_back(nm("v", i)); l1 += nm("v", i) + " ({ "; int n = sym::choice(nm("n", i).c_str(), 0, 2); for (int k = 0; k < n; k++) { int p = sym::choice(nm("p", i, k).c_str(), 1, J); m.setValue(i, p - 1, m.getValue(i, p - 1) + 1); l1 += char('0' + p); l1 += k ? "  " : " "; } l1 += i + 1 < I ? "}) " : "})"; }
  if (J < 2 && l1.find("1 2 }) v") != std::string::npos) ASSUME(0); if (J < 2) ASSUME(l1.find("NULL ({ 1 2") == std::string::npos);
  std::string f = "# 1\n"; for (int j = 0; j < J; j++) f += r.t[j] + (j + 1 < J ? " " : ""); f += "\n" + l1 + (sym::flag("nonl") ? "" : "\n"); sym::putFile("al", f); r.m = m; AlignmentExtractor e; e.open("al"); CHECK(e.getNextAlignment(), "each record is found"); expect(e, r, true); CHECK(!e.getNextAlignment(), "the file ends after its records"); COVER("parsed"); }
HARNESS(h_matrix) { Rec a = rec("a", 0, 4, CELLS, 2, false), b = rec("b", 1, 1, 1, 1, false); a.reps = a.m.get_I() * a.m.get_J() == 4 ? 12 : sym::choice("reps", 0, 12); b.reps = 1; bool c = sym::flag("cfile"); ASSUME(a.t.size() > 0); if (c) { FILE* p = fopen("al", "w"); printAlignmentInMyFormat(p, a.ns, a.t, a.m, a.reps); printAlignmentInMyFormat(p, b.ns, b.t, b.m); fclose(p); } else { std::ostringstream o; printAlignmentInMyFormat(o, a.ns, a.t, a.m, a.reps); printAlignmentInMyFormat(o, b.ns, b.t, b.m); sym::putFile("al", o.str()); }
  AlignmentExtractor e; e.open("al", ALIG_OP_FILE_FORMAT); CHECK(e.getNextAlignment(), "each record is found"); expect(e, a, true); CHECK(e.getNextAlignment(), "each record is found"); expect(e, b, true); CHECK(!e.getNextAlignment(), "the file ends after its records"); COVER("matrix"); }
static void op(int o, WordAligMatrix& w, const WordAligMatrix& x) { switch (o) { case 0: w |= x; break; case 1: w &= x; break; case 2: w += x; break; case 3: w.symmetr1(x); break; case 4: w.symmetr2(x); break; default: w.growDiagFinal(x); } }
static Rec transposed(const Rec& r) { Rec x; x.reps = r.reps; x.ns.push_back("NULL"); for (size_t j = 0; j < r.t.size(); j++) x.ns.push_back(r.t[j]); for (size_t i = 1; i < r.ns.size(); i++) x.t.push_back(r.ns[i]); x.m = r.m; x.m.transpose(); return x; }
static bool run(AlignmentExtractor& e, int o, bool tr) { switch (o) { case 0: return e.join("al2", "out", tr); case 1: return e.intersect("al2", "out", tr); case 2: return e.sum("al2", "out", tr); case 3: return e.symmetr1("al2", "out", tr); case 4: return e.symmetr2("al2", "out", tr); default: return e.growDiagFinal("al2", "out", tr); } }
static bool run(AlignmentContainer& e, int o, bool tr) { switch (o) { case 0: return e.join("al2", tr); case 1: return e.intersect("al2", tr); case 2: return e.sum("al2", tr); case 3: return e.symmetr1("al2", tr); case 4: return e.symmetr2("al2", tr); default: return e.growDiagFinal("al2", tr); } }
// two files, record by record; a record about other sentences is left alone
HARNESS(h_operate) { int o = sym::choice("op", 0, 5); bool tr = sym::flag("tr"); Rec a = rec("a", 1, 2, 2, 1, false), c = rec("c", 1, 1, 1, 1, false); a.reps = 2; Rec b = a; links("b", b, 1); int other = sym::choice("other", 0, 2); if (other == 1) b.t[0] = "x"; if (other == 2) b.ns[1] = "x"; Rec bt = tr ? transposed(b) : b, ct = tr ? transposed(c) : c; std::string f, g; giza(f, a, "# 2"); giza(f, c, "# 1"); giza(g, bt, "# 1"); giza(g, ct, "# 1"); sym::putFile("al", f); sym::putFile("al2", g);
  AlignmentExtractor e, q; e.open("al"); CHECK(run(e, o, tr) == THOT_OK, "files are operated"); if (!other) op(o, a.m, b.m); WordAligMatrix cm(c.m); op(o, c.m, cm); CHECK(q.open("out") == THOT_OK, "the result is a file"); CHECK(q.getNextAlignment(), "each record is found"); expect(q, a, true); CHECK(q.getNextAlignment(), "each record is found"); expect(q, c, true); CHECK(!q.getNextAlignment(), "the file ends after its records"); if (other) COVER("other sentences"); else COVER("operated"); }
// containers: pairs in any order, repeated pairs counted, combined with a second file
struct Ent { Rec r; int n; };
HARNESS(h_container) { std::vector<Ent> ent; std::string f; std::vector<Rec> all; bool full = NREC > 2 || !sym::flag("second"), gt = full && sym::flag("gt"), cf = full && sym::flag("cfile"); int n = sym::choice("n", 1, full && NREC == 2 ? 3 : 2); for (int k = 0; k < n; k++) { Rec r; r.reps = 1; r.ns.push_back("NULL"); int w = k && !full ? sym::choice(nm("pair", k).c_str(), 2, 3) : sym::choice(nm("pair", k).c_str(), 0, 3); r.ns.push_back(w & 1 ? "s1" : "s0"); r.t.push_back(w & 2 ? "t1" : "t0"); if (w == 3) r.t.push_back("t0"); links(nm("l", k).c_str(), r, 1); giza(f, gt ? transposed(r) : r, "# 1"); all.push_back(r); size_t i = 0; for (; i < ent.size(); i++) if (ent[i].r.ns == r.ns && ent[i].r.t == r.t) { ent[i].n++; break; } if (i == ent.size()) { Ent x = {r, 1}; ent.push_back(x); } }
  sym::putFile("al", f); AlignmentContainer c; CHECK(c.extractAlignmentsFromGIZAFile("al", gt) == THOT_OK, "files are read");
  if (full ? NREC > 2 && sym::flag("second") : true) { int o = sym::choice("op", 0, 5); bool tr = sym::flag("tr"); Rec b; b.reps = 1; b.ns.push_back("NULL"); int w = sym::choice("w", 0, 4); b.ns.push_back(w == 4 ? "zz" : w & 1 ? "s1" : "s0"); b.t.push_back(w & 2 ? "t1" : "t0"); if (w == 3) b.t.push_back("t0"); links("b", b, 1); std::string g; giza(g, tr ? transposed(b) : b, "# 1"); sym::putFile("al2", g); CHECK(run(c, o, tr) == THOT_OK, "files are operated"); for (size_t i = 0; i < ent.size(); i++) if (ent[i].r.ns == b.ns && ent[i].r.t == b.t) { op(o, ent[i].r.m, b.m); COVER("combined"); } }
  std::ostringstream o; if (cf) { FILE* p = fopen("out", "w"); c.printCompact(p); fclose(p); } else { o << c; sym::putFile("out", o.str()); } AlignmentExtractor e; e.open("out"); std::vector<bool> seen(ent.size(), false); size_t got = 0; while (e.getNextAlignment()) { got++; CHECK(got <= ent.size(), "each pair is printed once"); size_t i = 0; for (; i < ent.size(); i++) if (ent[i].r.ns == e.get_ns() && ent[i].r.t == e.get_t()) break; CHECK(i < ent.size() && !seen[i], "printed pairs are those stored"); seen[i] = true; CHECK(eqm(e.get_wamatrix(), ent[i].r.m), "printed links are those stored"); CHECK(e.get_numReps() == ent[i].n, "printed counts are the numbers of occurrences"); } CHECK(got == ent.size(), "every pair is printed"); e.close();
  if (cf) { FILE* p = fopen("out2", "w"); CHECK(c.printNoCompact(p) == THOT_OK, "printing works"); fclose(p); } else { std::ostringstream o2; CHECK(c.printNoCompact(o2) == THOT_OK, "printing works"); sym::putFile("out2", o2.str()); } e.open("out2"); for (int k = 0; k < n; k++) { CHECK(e.getNextAlignment(), "one record for each of the file read"); CHECK(e.get_ns() == all[k].ns && e.get_t() == all[k].t, "records keep the order of the file read"); for (size_t i = 0; i < ent.size(); i++) if (ent[i].r.ns == all[k].ns && ent[i].r.t == all[k].t) CHECK(eqm(e.get_wamatrix(), ent[i].r.m), "printed links are those stored"); } CHECK(!e.getNextAlignment(), "no more records than read"); COVER("container"); }
// no file, whatever it holds, is harmful: lines of arbitrary tokens
HARNESS(h_robust) { static const char* const tok[] = {"", "#", "a", "({", "})", "1", "2", "0", "\n"}; int n = sym::choice("n", 1, NREC + 2); std::string f = "# 1\na b\n"; if (sym::flag("bare")) f = ""; for (int i = 0; i < n; i++) { f += tok[sym::choice("t", i, 1, 8)]; f += ' '; } sym::putFile("al", f); AlignmentExtractor e; e.open("al"); int k = 0; while (k < 6 && e.getNextAlignment()) { k++; WordAligMatrix m = e.get_wamatrix(); CHECK(m.get_J() == e.get_t().size(), "the matrix spans the target sentence"); e.transposeAlig(); } COVER("robust"); }
HARNESS(h_longname) { std::string name; int len = sym::choice("len", 120, 150); for (int i = 0; i < len; i++) name += "./"; name += "al"; std::string f; Rec a; a.reps = 1; a.ns.push_back("NULL"); a.ns.push_back("s"); a.t.push_back("t"); a.m.init(1, 1); giza(f, a, "# 1"); sym::putFile(name.c_str(), f); AlignmentContainer c; CHECK(c.extractAlignmentsFromGIZAFile(name.c_str()) == THOT_OK, "files are read"); std::ostringstream o; c.printNoCompact(o); CHECK(o.str().size() > 10, "the file is read again"); COVER("long name"); }
