// hfstdrv CASES LOG [first]: executes the cases (sequences of calls of the public hfst API) and
// appends to LOG what each call did. The oracle is elsewhere (lib/*.py); this file decides nothing.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <typeinfo>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include "HfstTransducer.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "HfstTokenizer.h"
#include "HfstStrings2FstTokenizer.h"
#include "HfstFlagDiacritics.h"
#include "HfstExceptionDefs.h"
#include "HfstXeroxRules.h"
#include "implementations/HfstBasicTransducer.h"
#include "implementations/HfstBasicTransition.h"
#include "parsers/XreCompiler.h"
#include "parsers/LexcCompiler.h"
#include "parsers/TwolcCompiler.h"
#include "implementations/optimized-lookup/pmatch.h"

using namespace hfst;
using hfst::implementations::HfstBasicTransducer;
using hfst::implementations::HfstBasicTransition;
using hfst::implementations::HfstState;
typedef std::vector<std::string> V;

static FILE *lg;
static std::map<std::string, std::unique_ptr<HfstTransducer>> R;
static std::map<std::string, std::unique_ptr<HfstBasicTransducer>> G;
static std::map<std::string, std::unique_ptr<hfst::xre::XreCompiler>> X;
static std::map<std::string, std::unique_ptr<HfstTokenizer>> K;
static std::map<std::string, std::unique_ptr<hfst_ol::PmatchContainer>> PM;
static std::string scratch;

static std::string enc(const std::string &s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s)
        if (c == '%' || c == '\t' || c == '\n' || c == '\r' || c == 0) { snprintf(b, 4, "%%%02X", c); r += b; }
        else r += c;
    return r;
}
static std::string dec(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size() + 0 + 0) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
        else r += s[i];
    return r;
}
static V split(const std::string &l)
{
    V v;
    size_t p = 0;
    for (;;) {
        size_t q = l.find('\t', p);
        v.push_back(dec(l.substr(p, q == std::string::npos ? q : q - p)));
        if (q == std::string::npos) break;
        p = q + 1;
    }
    return v;
}
static ImplementationType ty(const std::string &s)
{
    if (s == "sfst") return SFST_TYPE;
    if (s == "foma") return FOMA_TYPE;
    if (s == "tropical") return TROPICAL_OPENFST_TYPE;
    if (s == "log") return LOG_OPENFST_TYPE;
    if (s == "ol") return HFST_OL_TYPE;
    if (s == "olw") return HFST_OLW_TYPE;
    fprintf(stderr, "driver: bad type %s\n", s.c_str());
    _exit(77);
}
static const char *tn(ImplementationType t)
{
    switch (t) {
    case SFST_TYPE: return "sfst";
    case FOMA_TYPE: return "foma";
    case TROPICAL_OPENFST_TYPE: return "tropical";
    case LOG_OPENFST_TYPE: return "log";
    case HFST_OL_TYPE: return "ol";
    case HFST_OLW_TYPE: return "olw";
    default: return "other";
    }
}
static void dumpg(const HfstBasicTransducer &g)
{
    fprintf(lg, "A");
    for (auto &s : g.get_alphabet()) fprintf(lg, "\t%s", enc(s).c_str());
    fprintf(lg, "\nS\t%u\n", g.get_max_state() + 1);
    HfstState s = 0;
    for (auto it = g.begin(); it != g.end(); ++it, ++s) {
        if (g.is_final_state(s)) fprintf(lg, "F\t%u\t%.9g\n", s, g.get_final_weight(s));
        for (auto &t : *it)
            fprintf(lg, "T\t%u\t%u\t%s\t%s\t%.9g\n", s, t.get_target_state(), enc(t.get_input_symbol()).c_str(),
                    enc(t.get_output_symbol()).c_str(), t.get_weight());
    }
    fprintf(lg, ".\n");
}
static HfstTransducer &r(const std::string &n)
{
    auto it = R.find(n);
    if (it == R.end()) throw std::string("no register " + n);
    return *it->second;
}
static HfstBasicTransducer &g(const std::string &n)
{
    auto it = G.find(n);
    if (it == G.end()) throw std::string("no graph " + n);
    return *it->second;
}
static void put(const std::string &n, HfstTransducer *t)
{
    R[n].reset(t);
}
static void printpaths(const HfstTwoLevelPaths &ps)
{
    fprintf(lg, "n\t%zu\n", ps.size());
    for (auto &p : ps) {
        fprintf(lg, "p\t%.9g", p.first);
        for (auto &sp : p.second) fprintf(lg, "\t%s\t%s", enc(sp.first).c_str(), enc(sp.second).c_str());
        fprintf(lg, "\n");
    }
}
static void printone(const HfstOneLevelPaths *ps)
{
    fprintf(lg, "n\t%zu\n", ps->size());
    for (auto &p : *ps) {
        fprintf(lg, "o\t%.9g", p.first);
        for (auto &s : p.second) fprintf(lg, "\t%s", enc(s).c_str());
        fprintf(lg, "\n");
    }
}
static float (*wf(const std::string &k))(float)
{
    if (k == "double") return [](float f) { return 2 * f; };
    if (k == "plus1") return [](float f) { return f + 1; };
    if (k == "zero") return [](float) { return 0.0f; };
    if (k == "affine") return [](float f) { return f * 0.5f + 0.25f; };
    return [](float f) { return f; };
}
static bool subst_func_upper(const StringPair &sp, StringPairSet &sps)
{
    if (sp.first != sp.second || sp.first.size() != 1) return false;
    sps.insert(StringPair(sp.first, "X"));
    sps.insert(StringPair("Y", sp.second));
    return true;
}
static HfstTransducerPairVector ctxs(const V &v, size_t i)
{
    HfstTransducerPairVector c;
    for (; i + 1 < v.size(); i += 2) c.push_back(HfstTransducerPair(r(v[i]), r(v[i + 1])));
    return c;
}
static StringPairSet pairset(const V &v, size_t i, size_t e)
{
    StringPairSet s;
    for (; i + 1 < e + 0 + 1 && i + 1 < v.size(); i += 2) s.insert(StringPair(v[i], v[i + 1]));
    return s;
}
static void reset_settings()
{
    set_minimization_algorithm(HOPCROFT);
    set_encode_weights(false);
    set_minimize_even_if_already_minimal(false);
    set_minimization(true);
    set_xerox_composition(false);
    set_flag_is_epsilon_in_composition(false);
    set_harmonize_smaller(true);
    set_unknown_symbols_in_use(true);
}

static void run(const V &v, std::istream &in)
{
    const std::string &c = v[0];
    if (c == "graph" || c == "fst") {
        std::unique_ptr<HfstBasicTransducer> b(new HfstBasicTransducer());
        std::string l;
        while (std::getline(in, l) && l != ".") {
            V w = split(l);
            if (w[0] == "A") for (size_t i = 1; i < w.size(); i++) b->add_symbol_to_alphabet(w[i]);
            else if (w[0] == "S") b->add_state(atoi(w[1].c_str()) - 1);
            else if (w[0] == "F") b->set_final_weight(atoi(w[1].c_str()), strtof(w[2].c_str(), 0));
            else if (w[0] == "T") b->add_transition(atoi(w[1].c_str()),
                HfstBasicTransition(atoi(w[2].c_str()), w[3], w[4], strtof(w[5].c_str(), 0)));
        }
        if (c == "graph") G[v[1]] = std::move(b);
        else put(v[1], new HfstTransducer(*b, ty(v[2])));
    }
    else if (c == "fromgraph") put(v[1], new HfstTransducer(g(v[2]), ty(v[3])));
    else if (c == "tograph") G[v[1]].reset(new HfstBasicTransducer(r(v[2])));
    else if (c == "copy") put(v[1], new HfstTransducer(r(v[2])));
    else if (c == "assign") r(v[1]) = r(v[2]);
    else if (c == "gcopy") G[v[1]].reset(new HfstBasicTransducer(g(v[2])));
    else if (c == "gassign") g(v[1]) = g(v[2]);
    else if (c == "empty") put(v[1], new HfstTransducer(ty(v[2])));
    else if (c == "sympair") put(v[1], new HfstTransducer(v[3], v[4], ty(v[2])));
    else if (c == "sym") put(v[1], new HfstTransducer(v[3], ty(v[2])));
    else if (c == "spv") {
        StringPairVector s;
        for (size_t i = 3; i + 1 < v.size(); i += 2) s.push_back(StringPair(v[i], v[i + 1]));
        put(v[1], new HfstTransducer(s, ty(v[2])));
    }
    else if (c == "sps") put(v[1], new HfstTransducer(pairset(v, 4, v.size()), ty(v[2]), v[3] == "1"));
    else if (c == "universal") put(v[1], new HfstTransducer(HfstTransducer::universal_pair(ty(v[2]))));
    else if (c == "identity") put(v[1], new HfstTransducer(HfstTransducer::identity_pair(ty(v[2]))));
    else if (c == "del") R.erase(v[1]);
    else if (c == "dump") {
        HfstTransducer &t = r(v[1]);
        fprintf(lg, "D\t%s\t%s\n", tn(t.get_type()), enc(t.get_name()).c_str());
        dumpg(HfstBasicTransducer(t));
    }
    else if (c == "gdump") { fprintf(lg, "D\tbasic\t%s\n", enc(g(v[1]).name).c_str()); dumpg(g(v[1])); }
    else if (c == "alphabet") {
        fprintf(lg, "a");
        for (auto &s : r(v[1]).get_alphabet()) fprintf(lg, "\t%s", enc(s).c_str());
        fprintf(lg, "\n");
    }
    else if (c == "set") {
        bool b = v[2] == "1";
        if (v[1] == "brzozowski") set_minimization_algorithm(b ? BRZOZOWSKI : HOPCROFT);
        else if (v[1] == "encode_weights") set_encode_weights(b);
        else if (v[1] == "even") set_minimize_even_if_already_minimal(b);
        else if (v[1] == "xerox_composition") set_xerox_composition(b);
        else if (v[1] == "flag_is_epsilon") set_flag_is_epsilon_in_composition(b);
        else if (v[1] == "harmonize_smaller") set_harmonize_smaller(b);
        else if (v[1] == "minimization") set_minimization(b);
    }
    // ---- unary operations
    else if (c == "invert") r(v[1]).invert();
    else if (c == "reverse") r(v[1]).reverse();
    else if (c == "input_project") r(v[1]).input_project();
    else if (c == "output_project") r(v[1]).output_project();
    else if (c == "negate") r(v[1]).negate();
    else if (c == "repeat_star") r(v[1]).repeat_star();
    else if (c == "repeat_plus") r(v[1]).repeat_plus();
    else if (c == "optionalize") r(v[1]).optionalize();
    else if (c == "repeat_n") r(v[1]).repeat_n(atoi(v[2].c_str()));
    else if (c == "repeat_n_minus") r(v[1]).repeat_n_minus(atoi(v[2].c_str()));
    else if (c == "repeat_n_plus") r(v[1]).repeat_n_plus(atoi(v[2].c_str()));
    else if (c == "repeat_n_to_k") r(v[1]).repeat_n_to_k(atoi(v[2].c_str()), atoi(v[3].c_str()));
    else if (c == "remove_epsilons") r(v[1]).remove_epsilons();
    else if (c == "determinize") r(v[1]).determinize();
    else if (c == "minimize") r(v[1]).minimize();
    else if (c == "optimize") r(v[1]).optimize();
    else if (c == "prune") r(v[1]).prune();
    else if (c == "prune_alphabet") r(v[1]).prune_alphabet(v[2] == "1");
    else if (c == "push_weights") r(v[1]).push_weights(v[2] == "init" ? TO_INITIAL_STATE : TO_FINAL_STATE);
    else if (c == "push_labels") r(v[1]).push_labels(v[2] == "init" ? TO_INITIAL_STATE : TO_FINAL_STATE);
    else if (c == "convert") r(v[1]).convert(ty(v[2]));
    else if (c == "n_best") r(v[1]).n_best(atoi(v[2].c_str()));
    else if (c == "eliminate_flags") r(v[1]).eliminate_flags();
    else if (c == "eliminate_flag") r(v[1]).eliminate_flag(v[2]);
    else if (c == "insert_to_alphabet") r(v[1]).insert_to_alphabet(v[2]);
    else if (c == "remove_from_alphabet") r(v[1]).remove_from_alphabet(v[2]);
    else if (c == "set_final_weights") r(v[1]).set_final_weights(strtof(v[2].c_str(), 0), v[3] == "1");
    else if (c == "transform_weights") r(v[1]).transform_weights(wf(v[2]));
    else if (c == "subst_symbol") r(v[1]).substitute(v[2], v[3], v[4] == "1", v[5] == "1");
    else if (c == "subst_pair") r(v[1]).substitute(StringPair(v[2], v[3]), StringPair(v[4], v[5]));
    else if (c == "subst_pair_set") r(v[1]).substitute(StringPair(v[2], v[3]), pairset(v, 4, v.size()));
    else if (c == "subst_map") {
        HfstSymbolSubstitutions m;
        for (size_t i = 2; i + 1 < v.size(); i += 2) m[v[i]] = v[i + 1];
        r(v[1]).substitute(m);
    }
    else if (c == "subst_pairmap") {
        HfstSymbolPairSubstitutions m;
        for (size_t i = 2; i + 3 < v.size(); i += 4) m[StringPair(v[i], v[i + 1])] = StringPair(v[i + 2], v[i + 3]);
        r(v[1]).substitute(m);
    }
    else if (c == "subst_fst") r(v[1]).substitute(StringPair(v[2], v[3]), r(v[4]), v.size() > 5 ? v[5] == "1" : true);
    else if (c == "subst_func") r(v[1]).substitute(&subst_func_upper);
    else if (c == "insert_freely") r(v[1]).insert_freely(StringPair(v[2], v[3]), v.size() > 4 ? v[4] == "1" : true);
    else if (c == "insert_freely_fst") r(v[1]).insert_freely(r(v[2]), v.size() > 3 ? v[3] == "1" : true);
    else if (c == "set_name") r(v[1]).set_name(v[2]);
    else if (c == "set_property") r(v[1]).set_property(v[2], v[3]);
    else if (c == "disjunct_spv") {
        StringPairVector s;
        for (size_t i = 2; i + 1 < v.size(); i += 2) s.push_back(StringPair(v[i], v[i + 1]));
        r(v[1]).disjunct(s);
    }
    // ---- binary operations
    else if (c == "compose") r(v[1]).compose(r(v[2]));
    else if (c == "concatenate") r(v[1]).concatenate(r(v[2]));
    else if (c == "disjunct") r(v[1]).disjunct(r(v[2]));
    else if (c == "intersect") r(v[1]).intersect(r(v[2]));
    else if (c == "subtract") r(v[1]).subtract(r(v[2]));
    else if (c == "priority_union") r(v[1]).priority_union(r(v[2]));
    else if (c == "lenient_composition") r(v[1]).lenient_composition(r(v[2]));
    else if (c == "cross_product") r(v[1]).cross_product(r(v[2]));
    else if (c == "shuffle") r(v[1]).shuffle(r(v[2]));
    else if (c == "harmonize") r(v[1]).harmonize(r(v[2]), v.size() > 3 && v[3] == "1");
    else if (c == "compose_intersect") {
        HfstTransducerVector t;
        for (size_t i = 3; i < v.size(); i++) t.push_back(r(v[i]));
        r(v[1]).compose_intersect(t, v[2] == "1");
    }
    else if (c == "compare") fprintf(lg, "b\t%d\n", r(v[1]).compare(r(v[2]), v.size() < 4 || v[3] == "1") ? 1 : 0);
    // ---- graph operations
    else if (c == "gsubst_symbol") g(v[1]).substitute(v[2], v[3], v[4] == "1", v[5] == "1");
    else if (c == "gsubst_pair") g(v[1]).substitute(StringPair(v[2], v[3]), StringPair(v[4], v[5]));
    else if (c == "gsubst_pair_set") g(v[1]).substitute(StringPair(v[2], v[3]), pairset(v, 4, v.size()));
    else if (c == "gsubst_map") {
        HfstSymbolSubstitutions m;
        for (size_t i = 2; i + 1 < v.size(); i += 2) m[v[i]] = v[i + 1];
        g(v[1]).substitute(m);
    }
    else if (c == "gsubst_fst") { HfstBasicTransducer t(g(v[4])); g(v[1]).substitute(StringPair(v[2], v[3]), t); }
    else if (c == "ginsert_freely") g(v[1]).insert_freely(StringPair(v[2], v[3]), strtof(v[4].c_str(), 0));
    else if (c == "ginsert_freely_fst") { HfstBasicTransducer t(g(v[2])); g(v[1]).insert_freely(t); }
    else if (c == "gharmonize") g(v[1]).harmonize(g(v[2]));
    else if (c == "gdisjunct_spv") {
        StringPairVector s;
        for (size_t i = 3; i + 1 < v.size(); i += 2) s.push_back(StringPair(v[i], v[i + 1]));
        g(v[1]).disjunct(s, strtof(v[2].c_str(), 0));
    }
    else if (c == "gprune_alphabet") g(v[1]).prune_alphabet(v[2] == "1");
    else if (c == "gcomplete") g(v[1]).complete();
    else if (c == "gremove_transitions") g(v[1]).remove_transitions(StringPair(v[2], v[3]));
    else if (c == "gsort_arcs") g(v[1]).sort_arcs();
    else if (c == "gintersect") {
        HfstBasicTransducer a(g(v[2])), b(g(v[3]));
        G[v[1]].reset(new HfstBasicTransducer(HfstBasicTransducer::intersect(a, b)));
    }
    else if (c == "glongest") fprintf(lg, "i\t%d\n", g(v[1]).longest_path_size());
    else if (c == "gpath_sizes") {
        fprintf(lg, "a");
        for (unsigned int x : g(v[1]).path_sizes()) fprintf(lg, "\t%u", x);
        fprintf(lg, "\n");
    }
    else if (c == "ginf") fprintf(lg, "b\t%d\n", g(v[1]).is_infinitely_ambiguous() ? 1 : 0);
    else if (c == "glookup_inf") {
        StringVector s(v.begin() + 3, v.end());
        fprintf(lg, "b\t%d\n", g(v[1]).is_lookup_infinitely_ambiguous(s, v[2] == "1") ? 1 : 0);
    }
    else if (c == "glookup") { // R obey max_eps_cycles max_number syms
        StringVector s(v.begin() + 5, v.end());
        HfstTwoLevelPaths res;
        size_t mc = atoi(v[3].c_str());
        g(v[1]).lookup(s, res, v[3] == "-" ? NULL : &mc, NULL, atoi(v[4].c_str()), v[2] == "1");
        printpaths(res);
    }
    // ---- queries
    else if (c == "is_cyclic") fprintf(lg, "b\t%d\n", r(v[1]).is_cyclic() ? 1 : 0);
    else if (c == "is_automaton") fprintf(lg, "b\t%d\n", r(v[1]).is_automaton() ? 1 : 0);
    else if (c == "has_weights") fprintf(lg, "b\t%d\n", r(v[1]).has_weights() ? 1 : 0);
    else if (c == "has_flags") fprintf(lg, "b\t%d\n", r(v[1]).has_flag_diacritics() ? 1 : 0);
    else if (c == "is_inf") fprintf(lg, "b\t%d\n", r(v[1]).is_infinitely_ambiguous() ? 1 : 0);
    else if (c == "lookup_inf") {
        StringVector s(v.begin() + 2, v.end());
        fprintf(lg, "b\t%d\n", r(v[1]).is_lookup_infinitely_ambiguous(s) ? 1 : 0);
    }
    else if (c == "states") fprintf(lg, "i\t%u\n", r(v[1]).number_of_states());
    else if (c == "arcs") fprintf(lg, "i\t%u\n", r(v[1]).number_of_arcs());
    else if (c == "longest") fprintf(lg, "i\t%d\n", r(v[1]).longest_path_size(v[2] == "1"));
    else if (c == "type") fprintf(lg, "t\t%s\n", tn(r(v[1]).get_type()));
    else if (c == "meta") {
        HfstTransducer &t = r(v[1]);
        fprintf(lg, "m\t%s\t%s\n", tn(t.get_type()), enc(t.get_name()).c_str());
        for (auto &p : t.get_properties()) fprintf(lg, "q\t%s\t%s\n", enc(p.first).c_str(), enc(p.second).c_str());
    }
    else if (c == "paths") { HfstTwoLevelPaths p; r(v[1]).extract_paths(p, atoi(v[2].c_str()), atoi(v[3].c_str())); printpaths(p); }
    else if (c == "paths_fd") { HfstTwoLevelPaths p; r(v[1]).extract_paths_fd(p, atoi(v[2].c_str()), atoi(v[3].c_str()), v[4] == "1"); printpaths(p); }
    else if (c == "random") { srand(atoi(v[3].c_str())); HfstTwoLevelPaths p; r(v[1]).extract_random_paths(p, atoi(v[2].c_str())); printpaths(p); }
    else if (c == "random_fd") { srand(atoi(v[3].c_str())); HfstTwoLevelPaths p; r(v[1]).extract_random_paths_fd(p, atoi(v[2].c_str()), v[4] == "1"); printpaths(p); }
    else if (c == "shortest") { HfstTwoLevelPaths p; r(v[1]).extract_shortest_paths(p); printpaths(p); }
    else if (c == "longest_paths") { HfstTwoLevelPaths p; bool b = r(v[1]).extract_longest_paths(p, v[2] == "1"); fprintf(lg, "b\t%d\n", b ? 1 : 0); printpaths(p); }
    else if (c == "lookup_v" || c == "lookup_fd_v") { // R limit syms
        StringVector s(v.begin() + 3, v.end());
        std::unique_ptr<HfstOneLevelPaths> p(c == "lookup_v" ? r(v[1]).lookup(s, atoi(v[2].c_str())) : r(v[1]).lookup_fd(s, atoi(v[2].c_str())));
        printone(p.get());
    }
    else if (c == "lookup_s" || c == "lookup_fd_s") { // R limit string
        std::unique_ptr<HfstOneLevelPaths> p(c == "lookup_s" ? r(v[1]).lookup(v[3], atoi(v[2].c_str())) : r(v[1]).lookup_fd(v[3], atoi(v[2].c_str())));
        printone(p.get());
    }
    else if (c == "lookup_tok") {
        std::unique_ptr<HfstOneLevelPaths> p(r(v[1]).lookup(*K.at(v[3]), v[4], atoi(v[2].c_str())));
        printone(p.get());
    }
    else if (c == "lookup_pairs") {
        std::unique_ptr<HfstTwoLevelPaths> p(r(v[1]).lookup_pairs(v[3], atoi(v[2].c_str())));
        printpaths(*p);
    }
    // ---- streams and text formats
    else if (c == "write") { // file hfst_format reg...
        std::string f = scratch + "/" + v[1];
        HfstOutputStream o(f, r(v[3]).get_type(), v[2] == "1");
        for (size_t i = 3; i < v.size(); i++) o << r(v[i]);
        o.close();
    }
    else if (c == "write_closed") { // file reg
        HfstOutputStream o(scratch + "/" + v[1], r(v[2]).get_type(), true);
        o << r(v[2]);
        o.close();
        o << r(v[2]);
    }
    else if (c == "write_mixed") { // file type reg
        HfstOutputStream o(scratch + "/" + v[1], ty(v[2]), true);
        o << r(v[3]);
    }
    else if (c == "damage") { // src dst kind pos(0..999999, relative) value
        std::ifstream f(scratch + "/" + v[1], std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        size_t n = d.size();
        size_t hl = n > 8 && d.compare(0, 5, std::string("HFST\0", 5)) == 0 ? 8 + (unsigned char)d[5] + 256 * (unsigned char)d[6] : 0;
        if (hl > n) hl = n;
        size_t lo = 0, hi = n;
        const std::string &k = v[3];
        if (k.find("hdr") != std::string::npos) hi = hl ? hl : n;
        else if (k.find("body") != std::string::npos) lo = hl;
        else if (k.find("start") != std::string::npos) { lo = hl; hi = std::min(n, hl + 80); }
        size_t p = k[k.size() - 1] == '#' ? lo + std::min((size_t)atoi(v[4].c_str()), hi - lo ? hi - lo - 1 : 0)
                 : k[k.size() - 1] == '-' ? n - std::min(n, (size_t)atoi(v[4].c_str()) + 1)
                 : lo + (size_t)((hi - lo) * (atof(v[4].c_str()) / 1e6));
        if (p >= n) p = n - 1;
        if (k.compare(0, 5, "trunc") == 0) d.resize(p);
        else if (k.compare(0, 3, "xor") == 0) d[p] ^= (char)atoi(v[5].c_str());
        else if (k.compare(0, 3, "set") == 0) d[p] = (char)atoi(v[5].c_str());
        else if (k.compare(0, 3, "ins") == 0) d.insert(p, 1, (char)atoi(v[5].c_str()));
        else if (k.compare(0, 3, "del") == 0) d.erase(p, atoi(v[5].c_str()));
        else if (k.compare(0, 3, "zap") == 0) for (int i = 0; i < 4 && p + i < n; i++) d[p + i] = (char)atoi(v[5].c_str());
        std::ofstream o(scratch + "/" + v[2], std::ios::binary);
        o << d;
        fprintf(lg, "i\t%zu\t%zu\t%zu\n", n, hl, p);
    }
    else if (c == "read_missing") { HfstInputStream is(scratch + "/no/such/file"); }
    else if (c == "read") { // file prefix
        HfstInputStream is(scratch + "/" + v[1]);
        int n = 0;
        fprintf(lg, "y\t%s\n", tn(is.get_type()));
        while (!is.is_eof() && n < 1000) {
            put(v[2] + std::to_string(n), new HfstTransducer(is));
            n++;
            fprintf(lg, "g\t%d\n", n);
            fflush(lg);
        }
        is.close();
        fprintf(lg, "i\t%d\n", n);
    }
    else if (c == "read_each") { // file prefix: one by one with is_good too
        HfstInputStream is(scratch + "/" + v[1]);
        int n = 0;
        while (is.is_good() && !is.is_eof()) {
            put(v[2] + std::to_string(n), new HfstTransducer(is));
            n++;
        }
        fprintf(lg, "i\t%d\n", n);
        try { HfstTransducer t(is); fprintf(lg, "x\tread past end\n"); }
        catch (const HfstException &e) { fprintf(lg, "x\t%s\n", e.name.c_str()); }
    }
    else if (c == "readall") { // file: read, dump everything that is read; exceptions logged by caller
        HfstInputStream is(scratch + "/" + v[1]);
        int n = 0;
        fprintf(lg, "y\t%s\n", tn(is.get_type()));
        while (!is.is_eof() && n < 100) {
            HfstTransducer t(is);
            n++;
            fprintf(lg, "g\t%d\n", n);
            fprintf(lg, "D\t%s\t%s\n", tn(t.get_type()), enc(t.get_name()).c_str());
            dumpg(HfstBasicTransducer(t));
            fprintf(lg, "gend\n");
        }
        fprintf(lg, "i\t%d\n", n);
    }
    else if (c == "att_write") { // file weights reg...
        FILE *f = fopen((scratch + "/" + v[1]).c_str(), "wb");
        for (size_t i = 3; i < v.size(); i++) {
            if (i > 3) fprintf(f, "--\n");
            r(v[i]).write_in_att_format(f, v[2] == "1");
        }
        fclose(f);
    }
    else if (c == "att_write_g") {
        std::ofstream f(scratch + "/" + v[1]);
        for (size_t i = 3; i < v.size(); i++) {
            if (i > 3) f << "--\n";
            g(v[i]).write_in_att_format(f, v[2] == "1");
        }
    }
    else if (c == "att_read") { // file type prefix epsilon
        FILE *f = fopen((scratch + "/" + v[1]).c_str(), "rb");
        if (!f) throw std::string("no file");
        int n = 0;
        unsigned int lc = 0;
        try {
            while (!feof(f) && n < 100) {
                int ch = getc(f);
                if (ch == EOF) break;
                ungetc(ch, f);
                put(v[3] + std::to_string(n), new HfstTransducer(f, ty(v[2]), v[4], lc, false));
                n++;
            }
        } catch (...) { fclose(f); fprintf(lg, "i\t%d\t%u\n", n, lc); throw; }
        fclose(f);
        fprintf(lg, "i\t%d\t%u\n", n, lc);
    }
    else if (c == "att_read_g") {
        std::ifstream f(scratch + "/" + v[1]);
        unsigned int lc = 0;
        int n = 0;
        while (f.peek() != EOF && n < 100) {
            G[v[3] + std::to_string(n)].reset(new HfstBasicTransducer(HfstBasicTransducer::read_in_att_format(f, v[4], lc, false)));
            n++;
        }
        fprintf(lg, "i\t%d\t%u\n", n, lc);
    }
    else if (c == "prolog_write") { // file weights reg...
        FILE *f = fopen((scratch + "/" + v[1]).c_str(), "wb");
        for (size_t i = 3; i < v.size(); i++) {
            if (i > 3) fprintf(f, "\n");
            HfstBasicTransducer b(r(v[i]));
            b.write_in_prolog_format(f, r(v[i]).get_name().empty() ? "NO_NAME" : r(v[i]).get_name(), v[2] == "1");
        }
        fclose(f);
    }
    else if (c == "prolog_read") { // file type prefix
        FILE *f = fopen((scratch + "/" + v[1]).c_str(), "rb");
        if (!f) throw std::string("no file");
        unsigned int lc = 0;
        int n = 0;
        try {
            while (n < 100) {
                HfstBasicTransducer b = HfstBasicTransducer::read_in_prolog_format(f, lc);
                put(v[3] + std::to_string(n), new HfstTransducer(b, ty(v[2])));
                r(v[3] + std::to_string(n)).set_name(b.name);
                n++;
            }
        } catch (const HfstException &e) { fprintf(lg, "x\t%s\n", e.name.c_str()); }
        catch (...) { fclose(f); fprintf(lg, "i\t%d\t%u\n", n, lc); throw; }
        fclose(f);
        fprintf(lg, "i\t%d\t%u\n", n, lc);
    }
    else if (c == "prolog_write_g") {
        std::ofstream f(scratch + "/" + v[1]);
        for (size_t i = 3; i < v.size(); i++) {
            if (i > 3) f << "\n";
            HfstTransducer &t = r(v[i].substr(1));
            g(v[i]).write_in_prolog_format(f, t.get_name().empty() ? "NO_NAME" : t.get_name(), v[2] == "1");
        }
    }
    else if (c == "prolog_read_g") {
        std::ifstream f(scratch + "/" + v[1]);
        unsigned int lc = 0;
        int n = 0;
        try {
            while (n < 100) {
                std::unique_ptr<HfstBasicTransducer> b(new HfstBasicTransducer(HfstBasicTransducer::read_in_prolog_format(f, lc)));
                G[v[3] + std::to_string(n)] = std::move(b);
                n++;
            }
        } catch (const HfstException &e) { fprintf(lg, "x\t%s\n", e.name.c_str()); }
        fprintf(lg, "i\t%d\t%u\n", n, lc);
    }
    else if (c == "putfile") { std::ofstream f(scratch + "/" + v[1], std::ios::binary); f << v[2]; }
    else if (c == "tool") { // name stdin stdout mode(f redirect, p pipes) args...: one command-line tool, in the scratch directory
        char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
        std::string exe(self, sl > 0 ? sl : 0);
        exe = exe.substr(0, exe.rfind('/') + 1) + v[1];
        std::string si = v[2] == "-" ? "/dev/null" : v[2], so = v[3];
        V a;
        if (v[4] == "p") { a = {"/bin/sh", "-c", "i=$1; o=$2; shift 2; { cat \"$i\"; } | { \"$@\"; echo $? > tool.rc; } | cat > \"$o\"; exit `cat tool.rc`", "sh", si, so}; }
        a.push_back(exe);
        a.insert(a.end(), v.begin() + 5, v.end());
        std::vector<char *> av;
        for (auto &x : a) av.push_back(const_cast<char *>(x.c_str()));
        av.push_back(0);
        fflush(lg);
        pid_t pid = fork();
        if (pid == 0) {
            if (chdir(scratch.c_str())) _exit(126);
            struct rlimit rl = {(rlim_t)40, (rlim_t)45};
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit fl = {(rlim_t)1 << 28, (rlim_t)1 << 28};
            setrlimit(RLIMIT_FSIZE, &fl);
            int i = open(v[4] == "p" ? "/dev/null" : si.c_str(), O_RDONLY), o = open(v[4] == "p" ? "/dev/null" : so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            int e = open("tool.err", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (i < 0 || e < 0 || o < 0) _exit(126);
            dup2(i, 0); dup2(o, 1); dup2(e, 2);
            for (int k = 3; k < 64; k++) close(k);
            execv(av[0], av.data());
            _exit(127);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::ifstream f(scratch + "/tool.err", std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (d.size() > 6000) d = d.substr(0, 4000) + " ... " + d.substr(d.size() - 2000);
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        fprintf(lg, "rc\t%d\nerr\t%s\n", rc, enc(d).c_str());
    }
    else if (c == "cat") {
        std::ifstream f(scratch + "/" + v[1], std::ios::binary);
        if (!f) fprintf(lg, "nofile\n");
        else { std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); fprintf(lg, "c\t%s\n", enc(d.substr(0, 400000)).c_str()); }
    }
    else if (c == "rm") { for (size_t i = 1; i < v.size(); i++) unlink((scratch + "/" + v[i]).c_str()); }
    else if (c == "hexfile") {
        std::ofstream f(scratch + "/" + v[1], std::ios::binary);
        for (size_t i = 0; i + 1 < v[2].size(); i += 2) f << (char)strtol(v[2].substr(i, 2).c_str(), 0, 16);
    }
    // ---- tokenizers
    else if (c == "tok") { // K n_multi multi... skip...
        std::unique_ptr<HfstTokenizer> k(new HfstTokenizer());
        size_t n = atoi(v[2].c_str());
        for (size_t i = 3; i < v.size(); i++) (i < 3 + n) ? k->add_multichar_symbol(v[i]) : k->add_skip_symbol(v[i]);
        K[v[1]] = std::move(k);
    }
    else if (c == "tok1") { StringVector o = K.at(v[1])->tokenize_one_level(v[2], v[3] == "1"); fprintf(lg, "a"); for (auto &s : o) fprintf(lg, "\t%s", enc(s).c_str()); fprintf(lg, "\n"); }
    else if (c == "tok2" || c == "tok3") {
        StringPairVector s = c == "tok2" ? K.at(v[1])->tokenize(v[2], v[3] == "1") : K.at(v[1])->tokenize(v[2], v[3], v[4] == "1");
        fprintf(lg, "a");
        for (auto &p : s) fprintf(lg, "\t%s\t%s", enc(p.first).c_str(), enc(p.second).c_str());
        fprintf(lg, "\n");
    }
    else if (c == "tokspace") {
        StringPairVector o = HfstTokenizer::tokenize_space_separated(v[1]);
        fprintf(lg, "a");
        for (auto &p : o) fprintf(lg, "\t%s\t%s", enc(p.first).c_str(), enc(p.second).c_str());
        fprintf(lg, "\n");
    }
    else if (c == "tokfst") put(v[1], new HfstTransducer(v[3], *K.at(v[4]), ty(v[2])));
    else if (c == "tokfst2") put(v[1], new HfstTransducer(v[3], v[4], *K.at(v[5]), ty(v[2])));
    else if (c == "s2ftok") { // eps spaces/pairs mode string n_multi multi...
        StringVector m(v.begin() + 5, v.end());
        HfstStrings2FstTokenizer t(m, v[1]);
        StringPairVector s = v[2] == "s" ? t.tokenize_string_pair(v[4], v[3] == "1") : t.tokenize_pair_string(v[4], v[3] == "1");
        fprintf(lg, "a");
        for (auto &p : s) fprintf(lg, "\t%s\t%s", enc(p.first).c_str(), enc(p.second).c_str());
        fprintf(lg, "\n");
    }
    else if (c == "utf8") fprintf(lg, "i\t%u\n", HfstTokenizer::check_utf8_correctness_and_calculate_length(v[1]));
    // ---- flag diacritics
    else if (c == "isflag") fprintf(lg, "b\t%d\n", FdOperation::is_diacritic(v[1]) ? 1 : 0);
    // ---- compilers
    else if (c == "xre") { // X type
        X[v[1]].reset(new hfst::xre::XreCompiler(ty(v[2])));
        X[v[1]]->set_verbosity(false);
        X[v[1]]->set_expand_definitions(true);
    }
    else if (c == "xre_compile") { // R X expr
        std::ostringstream err;
        X.at(v[2])->set_error_stream(&err);
        HfstTransducer *t = X.at(v[2])->compile(v[3]);
        X.at(v[2])->set_error_stream(&std::cerr);
        if (t) put(v[1], t); else R.erase(v[1]);
        fprintf(lg, "b\t%d\t%s\n", t ? 1 : 0, enc(err.str()).c_str());
    }
    else if (c == "xre_define") fprintf(lg, "b\t%d\n", X.at(v[1])->define(v[2], v[3]) ? 1 : 0);
    else if (c == "xre_define_list") X.at(v[1])->define_list(v[2], std::set<std::string>(v.begin() + 3, v.end()));
    else if (c == "xre_define_fst") X.at(v[1])->define(v[2], r(v[3]));
    else if (c == "xre_undefine") X.at(v[1])->undefine(v[2]);
    else if (c == "xre_function") fprintf(lg, "b\t%d\n", X.at(v[1])->define_function(v[2], atoi(v[3].c_str()), v[4]) ? 1 : 0);
    else if (c == "xre_first") {
        unsigned int n = 0;
        std::ostringstream err;
        X.at(v[2])->set_error_stream(&err);
        HfstTransducer *t = X.at(v[2])->compile_first(v[3], n);
        X.at(v[2])->set_error_stream(&std::cerr);
        if (t) put(v[1], t); else R.erase(v[1]);
        fprintf(lg, "b\t%d\t%u\n", t ? 1 : 0, n);
    }
    else if (c == "lexc") { // R type flags(with_flags,align,minimize_flags,rename_flags) text...
        hfst::lexc::LexcCompiler lc(ty(v[2]), v[3][0] == '1', v[3][1] == '1');
        lc.setVerbosity(0);
        if (v[3].size() > 2) lc.setMinimizeFlags(v[3][2] == '1');
        if (v[3].size() > 3) lc.setRenameFlags(v[3][3] == '1');
        std::ostringstream err;
        lc.set_error_stream(&err);
        bool ok = true;
        for (size_t i = 4; i < v.size(); i++) {
            std::string f = scratch + "/in.lexc";
            { std::ofstream o(f, std::ios::binary); o << v[i]; }
            lc.parse(f.c_str());
        }
        HfstTransducer *t = lc.compileLexical();
        (void)ok;
        if (t) put(v[1], t); else R.erase(v[1]);
        fprintf(lg, "b\t%d\t%s\n", t ? 1 : 0, enc(err.str()).c_str());
    }
    else if (c == "twolc") { // type resolve_left resolve_right text
        std::string f = scratch + "/in.twolc", o = scratch + "/out.twolc";
        { std::ofstream s(f, std::ios::binary); s << v[4]; }
        unlink(o.c_str());
        std::ostringstream err;
        std::streambuf *old = std::cerr.rdbuf(err.rdbuf());
        int rc;
        try { rc = hfst::twolc::TwolcCompiler::compile(f, o, true, false, v[2] == "1", v[3] == "1", ty(v[1])); }
        catch (...) { std::cerr.rdbuf(old); throw; }
        std::cerr.rdbuf(old);
        fprintf(lg, "b\t%d\t%s\n", rc, enc(err.str()).c_str());
        if (rc == 0) {
            HfstInputStream in(o);
            while (in.is_good()) {
                HfstTransducer t(in);
                fprintf(lg, "D\t%s\t%s\n", tn(t.get_type()), enc(t.get_name()).c_str());
                dumpg(HfstBasicTransducer(t));
            }
        }
    }
    // ---- rules (HfstRules)
    else if (c == "rule") { // R kind optional mapping/alphabetpairs...
        const std::string &k = v[2];
        bool opt = v[3] == "1";
        size_t na = atoi(v[4].c_str());
        StringPairSet al = StringPairSet();
        for (size_t i = 0; i < na; i++) al.insert(StringPair(v[5 + 2 * i], v[6 + 2 * i]));
        size_t i = 5 + 2 * na;
        HfstTransducer res(TROPICAL_OPENFST_TYPE);
        if (k == "replace_up0") res = rules::replace_up(r(v[i]), opt, al);
        else if (k == "replace_down0") res = rules::replace_down(r(v[i]), opt, al);
        else if (k == "left_replace_up0") res = rules::left_replace_up(r(v[i]), opt, al);
        else if (k == "restriction" || k == "coercion" || k == "restriction_and_coercion" || k == "surface_restriction"
                 || k == "surface_coercion" || k == "surface_restriction_and_coercion" || k == "deep_restriction"
                 || k == "deep_coercion" || k == "deep_restriction_and_coercion") {
            HfstTransducerPairVector cs = ctxs(v, i + 1);
            HfstTransducer &m = r(v[i]);
            if (k == "restriction") res = rules::restriction(cs, m, al);
            else if (k == "coercion") res = rules::coercion(cs, m, al);
            else if (k == "restriction_and_coercion") res = rules::restriction_and_coercion(cs, m, al);
            else if (k == "surface_restriction") res = rules::surface_restriction(cs, m, al);
            else if (k == "surface_coercion") res = rules::surface_coercion(cs, m, al);
            else if (k == "surface_restriction_and_coercion") res = rules::surface_restriction_and_coercion(cs, m, al);
            else if (k == "deep_restriction") res = rules::deep_restriction(cs, m, al);
            else if (k == "deep_coercion") res = rules::deep_coercion(cs, m, al);
            else res = rules::deep_restriction_and_coercion(cs, m, al);
        }
        else if (k == "two_level_if" || k == "two_level_only_if" || k == "two_level_if_and_only_if") {
            // centre pairs: count then pairs; then context regs
            size_t nc = atoi(v[i].c_str());
            StringPairSet ce;
            for (size_t j = 0; j < nc; j++) ce.insert(StringPair(v[i + 1 + 2 * j], v[i + 2 + 2 * j]));
            i += 1 + 2 * nc;
            HfstTransducerPair cx(r(v[i]), r(v[i + 1]));
            if (k == "two_level_if") res = rules::two_level_if(cx, ce, al);
            else if (k == "two_level_only_if") res = rules::two_level_only_if(cx, ce, al);
            else res = rules::two_level_if_and_only_if(cx, ce, al);
        }
        else {
            HfstTransducerPair cx(r(v[i + 1]), r(v[i + 2]));
            HfstTransducer &m = r(v[i]);
            if (k == "replace_up") res = rules::replace_up(cx, m, opt, al);
            else if (k == "replace_down") res = rules::replace_down(cx, m, opt, al);
            else if (k == "replace_left") res = rules::replace_left(cx, m, opt, al);
            else if (k == "replace_right") res = rules::replace_right(cx, m, opt, al);
            else throw std::string("bad rule");
        }
        put(v[1], new HfstTransducer(res));
    }
    // ---- pattern matching
    else if (c == "pm") { // P file single-codepoint
        std::ifstream f(scratch + "/" + v[2], std::ios::binary);
        PM[v[1]].reset(new hfst_ol::PmatchContainer(f));
        PM[v[1]]->set_single_codepoint_tokenization(v[3] == "1");
    }
    else if (c == "pm_match") { std::string o = PM.at(v[1])->match(v[2]); fprintf(lg, "s\t%s\n", enc(o).c_str()); }
    else if (c == "pm_locate") {
        hfst_ol::LocationVectorVector o = PM.at(v[1])->locate(v[2]);
        for (auto &ls : o) {
            fprintf(lg, "L\n");
            for (auto &l : ls) {
                fprintf(lg, "l\t%u\t%u\t%s\t%s\t%s\t%.9g\n", l.start, l.length, enc(l.input).c_str(), enc(l.output).c_str(), enc(l.tag).c_str(), (double)l.weight);
                std::string a, b;
                for (auto &x : l.input_symbol_strings) a += x;
                for (auto &x : l.output_symbol_strings) b += x;
                if (a != l.input || (b != l.output && l.output != "@_NONMATCHING_@")) fprintf(lg, "symbols\t%s\t%s\n", enc(a).c_str(), enc(b).c_str());
            }
        }
    }
    else if (c == "nop") {}
    else throw std::string("unknown command " + c);
}

int main(int argc, char **argv)
{
    if (argc < 4) return 77;
    scratch = argv[3];
    std::ifstream in(argv[1], std::ios::binary);
    lg = fopen(argv[2], "ab");
    if (!in || !lg) return 77;
    int cpu = getenv("CASE_CPU") ? atoi(getenv("CASE_CPU")) : 20;
    std::string l;
    int n = 0;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        V v = split(l);
        if (v[0] == "case") {
            struct itimerval it = {{0, 0}, {cpu, 0}};
            setitimer(ITIMER_PROF, &it, 0);   // SIGPROF ends a runaway case: inconclusive
            reset_settings();
            fprintf(lg, "@case\t%s\n", v[1].c_str());
            fflush(lg);
            n = 0;
            continue;
        }
        if (v[0] == "end") {
            R.clear(); G.clear(); X.clear(); K.clear(); PM.clear();
            fprintf(lg, "@end\n");
            fflush(lg);
            continue;
        }
        fprintf(lg, "@\t%d\t%s\n", n++, v[0].c_str());
        fflush(lg);
        try { run(v, in); fprintf(lg, "ok\n"); }
        catch (const HfstException &e) { fprintf(lg, "EXC\t%s\n", enc(e.name).c_str()); }
        catch (const std::string &e) { fprintf(lg, "EXC\tstring\t%s\n", enc(e).c_str()); }
        catch (const char *e) { fprintf(lg, "EXC\tcstring\t%s\n", enc(e).c_str()); }
        catch (const std::exception &e) { fprintf(lg, "EXC\tstd\t%s\t%s\n", enc(typeid(e).name()).c_str(), enc(e.what()).c_str()); }
        catch (const UnescapedColsFound &e) { fprintf(lg, "EXC\tUnescapedColsFound\n"); }
        catch (const EmptyMulticharSymbol &e) { fprintf(lg, "EXC\tEmptyMulticharSymbol\n"); }
        catch (int e) { fprintf(lg, "EXC\tint\t%d\n", e); }
        catch (...) { fprintf(lg, "EXC\tunknown\n"); }
    }
    fflush(lg);
    return 0;
}
