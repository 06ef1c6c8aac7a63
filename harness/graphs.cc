// graphs.cc - model-based histories over the graph container, order laws and
// grouping of arbitrary graphs.
//
//   graphs --history SEED COUNT     C12
//   graphs --order SEED COUNT       C13
//   graphs --group SEED COUNT       C9: prints flat and grouped forms of random
//                                   graphs and checks the expansion
// Output: "V kind TAB witness TAB detail", "S name count", "DONE".

#include "maybe.h"
#include "lattice/dag.h"
#include "lattice/pron-dag.h"
#include "lattice/lattice.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"

#include <algorithm>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>

using namespace std;

static uint64_t rngState;
static uint32_t
rnd (uint32_t n)
{
    rngState += 0x9e3779b97f4a7c15ull;
    uint64_t z = rngState;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (uint32_t) ((z ^ (z >> 31)) % n);
}

static map<string, unsigned long> stat_;
static unsigned long nViol;
static set<size_t> distinct_;     // printed as H lines, merged by the caller
static void note (const string& k) { distinct_.insert (hash<string>() (k)); }

static void
viol (const string& kind, const string& witness, const string& detail)
{
    if (nViol++ < 10) cout << "V " << kind << '\t' << witness << '\t' << detail << endl;
}

//-------------------------------------------------------------- histories (C12)

// A label type knows how to make the k-th label and name it.
struct CharLabel {
    typedef char Val;
    static Val make (int k) { return 'a' + k; }
    static string name (const Val& v) { return string (1, v); }
};
struct SylLabel {
    typedef Syl Val;
    static Val make (int k)
    {
        static const char* codes[] = { "k_a_1", "k_A_0", "krok1", "?_in0" };
        return k < 4 ? Syl (codes[k]) : k < 6 ? Syl (3, k == 4 ? u"x" : u"y") : Syl (3, u16string (k, u'z'));
    }
    static string name (const Val& v)
    {
        if (!v.isLiteral()) return RawSylOutput().output (v).substr (0, 5);
        return "(" + string (1, (char) v.literal()[0]) + (v.literal().size() > 1 ? to_string (v.literal().size()) : "") + ")";
    }
};
struct FracLabel {
    typedef PronunFrac Val;
    static Val make (int k)
    {
        PronunFrac f (2, SylString (Syl (k & 1 ? "k_a_1@2" : "k_A_0@2")));
        if (k & 2) f += SylString (Syl ("n_om0@2"));
        if (k & 4) f += SylString (string ("c_a_1@1,n_om0@2"));
        return f;
    }
    static string name (const Val& v)
    {
        string r;
        for (auto& s : v) { for (auto& y : s) r += RawSylOutput().output (y) + ","; r += "|"; }
        return r;
    }
};

template<typename L, typename G>
struct History {
    typedef tuple<int, int, string> Triple;
    typedef set<Triple> Ref;
    vector<G> g { 3 };
    vector<Ref> r { 3 };
    string log;
    int nodes, labels, scale = 1;

    int node (int n) const { return n < 0 ? n : n * scale; }

    void fail (const string& what) { viol ("graph", log, what); }

    // compare every view of one graph with the reference set
    bool check (int i)
    {
        const G& x = g[i];
        set<Triple> fwd, bwd;
        size_t nf = 0, nb = 0;
        for (auto it = x.outBegin(); it != x.outEnd(); ++it) { ++nf; fwd.insert (Triple (it->first, it->second.target, L::name (it->second.edgeVal))); }
        for (auto it = x.inBegin(); it != x.inEnd(); ++it) { ++nb; bwd.insert (Triple (it->second.target, it->first, L::name (it->second.edgeVal))); }
        if (fwd != r[i] || nf != r[i].size()) { fail ("forward edges differ from the set of edges"); return false; }
        if (bwd != r[i] || nb != r[i].size()) { fail ("backward edges differ from the set of edges"); return false; }
        G& mx = g[i];
        size_t nm = 0, nn = 0;
        for (auto it = mx.outBegin(); it != mx.outEnd(); ++it) ++nm;
        for (auto it = mx.inBegin(); it != mx.inEnd(); ++it) ++nn;
        if (nm != nf || nn != nb) { fail ("mutable iteration differs"); return false; }
        for (int m = -2; m < nodes; ++m) {
            int n = node (m);
            int od = 0, id = 0;
            set<Triple> o, in;
            for (auto& t : r[i]) { if (get<0> (t) == n) { ++od; o.insert (t); } if (get<1> (t) == n) { ++id; in.insert (t); } }
            if (x.outDegree (n) != od) { fail ("outDegree(" + to_string (n) + ")=" + to_string (x.outDegree (n))); return false; }
            if (x.inDegree (n) != id) { fail ("inDegree(" + to_string (n) + ")=" + to_string (x.inDegree (n))); return false; }
            set<Triple> o2, in2;
            auto oe = x.outEdges (n);
            for (auto it = oe.first; it != oe.second; ++it) o2.insert (Triple (n, it->second.target, L::name (it->second.edgeVal)));
            auto ie = x.inEdges (n);
            for (auto it = ie.first; it != ie.second; ++it) in2.insert (Triple (it->second.target, n, L::name (it->second.edgeVal)));
            if (o2 != o || in2 != in) { fail ("edges at node " + to_string (n)); return false; }
        }
        for (int a = -1; a < nodes; ++a)
            for (int b = -1; b < nodes; ++b)
                for (int k = 0; k < labels; ++k) {
                    auto v = L::make (k);
                    if (x.isEdgeExist (node (a), node (b), v) != (r[i].count (Triple (node (a), node (b), L::name (v))) > 0)) {
                        fail ("membership of " + to_string (a) + "-" + L::name (v) + "->" + to_string (b));
                        return false;
                    }
                }
        ++stat_["states-checked"];
        return true;
    }

    void run (int ops, bool crowded = false)
    {
        nodes = 2 + rnd (4);
        labels = 1 + rnd (5);
        if (crowded) { nodes = 1 + rnd (2); labels = 90; }
        if (rnd (4) == 0) scale = rnd (2) ? 100 : 33000;
        for (int step = 0; step < ops; ++step) {
            int i = rnd (3), a = node ((int) rnd (nodes + 1) - 1), b = node ((int) rnd (nodes + 1) - 1), k = rnd (labels), op = rnd (20);
            if (crowded) { i = rnd (8) ? 0 : i; op = rnd (3) ? rnd (11) : op; if (op == 13 || op == 14) op = rnd (12) ? 0 : op; }
            auto v = L::make (k);
            Triple t (a, b, L::name (v));
            string at = to_string (a) + "-" + L::name (v) + "->" + to_string (b);
            if (op < 9) {
                log += " g" + to_string (i) + "+=" + at;
                bool fresh = r[i].insert (t).second;
                if (g[i].addEdge (a, b, v) != fresh) { fail ("addEdge return value"); return; }
                ++stat_["op-add"];
                if (!fresh) ++stat_["op-add-existing"];
            } else if (op < 13) {
                log += " g" + to_string (i) + "-=" + at;
                bool had = r[i].erase (t) > 0;
                if (g[i].removeEdge (a, b, v) != had) { fail ("removeEdge return value"); return; }
                ++stat_[had ? "op-remove" : "op-remove-absent"];
            } else if (op < 15) {
                log += " g" + to_string (i) + "cut" + to_string (a) + "," + to_string (b);
                size_t before = r[i].size();
                for (auto it = r[i].begin(); it != r[i].end(); )
                    if (get<0> (*it) == a && get<1> (*it) == b) it = r[i].erase (it); else ++it;
                if (g[i].removeDirectEdges (a, b) != (r[i].size() != before)) { fail ("removeDirectEdges return value"); return; }
                ++stat_[before - r[i].size() > 1 ? "op-cut-many" : "op-cut"];
            } else if (op < 17) {
                int j = (i + 1 + rnd (2)) % 3;
                log += " g" + to_string (i) + "|=g" + to_string (j);
                g[i].unionDAG (g[j]);
                r[i].insert (r[j].begin(), r[j].end());
                ++stat_["op-union"];
                if (!check (j)) return;
            } else if (op == 17) {
                int j = rnd (3);
                log += " g" + to_string (i) + "=g" + to_string (j);
                g[i] = g[j];
                r[i] = r[j];
                ++stat_["op-assign"];
                if (!check (j)) return;
            } else if (op == 18) {
                int j = rnd (3);
                log += " g" + to_string (i) + ":=copy(g" + to_string (j) + ")";
                G c (g[j]);
                g[j].addEdge (7, 8, v);           // must not show in the copy
                g[i] = c;
                Ref rj = r[j];
                g[j].removeEdge (7, 8, v);
                if (i == j) g[i] = c;
                r[i] = rj;
                ++stat_["op-copy"];
            } else {
                log += " g" + to_string (i) + ":=move";
                G m (std::move (g[i]));
                g[i] = m;
                ++stat_["op-move"];
            }
            if (!check (i)) return;
        }
        // independence of all three at the end
        for (int i = 0; i < 3; ++i) if (!check (i)) return;
        ++stat_["histories"];
        string k;
        for (auto& x : r) { for (auto& t : x) k += to_string (get<0> (t)) + get<2> (t) + to_string (get<1> (t)); k += "/"; }
        note (k);
    }
};

// many edges at one place
template<typename L, typename G>
static void
crowds (int count)
{
    for (int i = 0; i < count; ++i) {
        History<L, G> h;
        h.run (600, true);
        ++stat_["crowds"];
    }
}

template<typename L, typename G>
static void
histories (int count)
{
    for (int i = 0; i < count; ++i) {
        History<L, G> h;
        h.run (4 + rnd (30));
        stat_["evaluations"] = stat_["states-checked"];
    }
}

// every history of a given length over two nodes and two labels, one graph
static void
exhaustive (int len)
{
    vector<tuple<int, int, int, int>> ops;    // op, a, b, k
    for (int op = 0; op < 2; ++op)
        for (int a = 0; a < 2; ++a) for (int k = 0; k < 2; ++k) ops.push_back (make_tuple (op, a, a + 1, k));
    for (int a = 0; a < 2; ++a) ops.push_back (make_tuple (2, a, a + 1, 0));
    unsigned long total = 1;
    for (int i = 0; i < len; ++i) total *= ops.size();
    for (unsigned long n = 0; n < total; ++n) {
        History<CharLabel, DAG<char>> h;
        h.nodes = 3;
        h.labels = 2;
        unsigned long x = n;
        for (int i = 0; i < len; ++i, x /= ops.size()) {
            int op, a, b, k;
            tie (op, a, b, k) = ops[x % ops.size()];
            char v = CharLabel::make (k);
            typename History<CharLabel, DAG<char>>::Triple t (a, b, string (1, v));
            h.log += " " + to_string (op) + ":" + to_string (a) + v + to_string (b);
            if (op == 0) { if (h.g[0].addEdge (a, b, v) != h.r[0].insert (t).second) { h.fail ("addEdge return value"); return; } }
            else if (op == 1) { if (h.g[0].removeEdge (a, b, v) != (h.r[0].erase (t) > 0)) { h.fail ("removeEdge return value"); return; } }
            else {
                size_t before = h.r[0].size();
                for (auto it = h.r[0].begin(); it != h.r[0].end(); )
                    if (get<0> (*it) == a && get<1> (*it) == b) it = h.r[0].erase (it); else ++it;
                if (h.g[0].removeDirectEdges (a, b) != (h.r[0].size() != before)) { h.fail ("removeDirectEdges return value"); return; }
            }
        }
        if (!h.check (0)) return;
        ++stat_["exhaustive-histories"];
    }
}

//------------------------------------------------------------------ order (C13)

struct Item { Syl s; int lit; string key; int pos; };   // reference identity

static int sgn (int x) { return x < 0 ? -1 : x > 0; }

static string
nameOf (const Item& i) { return (i.lit ? "(" + i.key + ")" : i.key) + "@" + to_string (i.pos); }

static void
order (int count)
{
    static const string IN = "kcgjJydtTnbpPfmrlwsh?", SE = "_rlw", VO = "aAiIvVuUeExXyYzZtToOcCwW", FI = "_ktpgnmyw", TO = "01234";
    static const char16_t* lits[] = { u"a", u"ab", u"b", u"-", u" ", u"ก", u"\xd83d\xde00" };
    static const char* litNames[] = { "a", "ab", "b", "-", " ", "K", "E" };
    static const int poss[] = { -305, -1, 0, 1, 2, 7 };
    auto make = [&] () {
        int pos = poss[rnd (6)];
        uint32_t kind = rnd (10);
        if (kind < 2) { int k = rnd (7); return Item { Syl (pos, lits[k]), 1, litNames[k], pos }; }
        if (kind == 2) return Item { Syl::Blank, 0, "blank", -1 };
        // few letters, so that many components agree
        string c { IN[rnd (4) ? rnd (3) * 7 : rnd (21)], SE[rnd (4)], VO[rnd (4) ? rnd (4) : rnd (24)], FI[rnd (4) ? rnd (3) : rnd (9)], TO[rnd (5)] };
        return Item { Syl (c, pos), 0, c, pos };
    };
    auto same = [] (const Item& a, const Item& b) { return a.lit == b.lit && a.key == b.key; };
    for (int n = 0; n < count; ++n) {
        Item x = make(), y = make(), z = make();
        if (rnd (4) == 0) { y = x; if (rnd (2) && x.key != "blank") { y.pos = poss[rnd (6)]; y.s.setEndPos (y.pos); } }
        string w = nameOf (x) + " " + nameOf (y) + " " + nameOf (z);
        note (nameOf (x));
        auto& a = x.s; auto& b = y.s; auto& c = z.s;
        if ((a == b) != same (x, y)) viol ("order", w, "== is not identity of sounds");
        if ((a != b) == (a == b)) viol ("order", w, "!= and == agree");
        bool eqPos = same (x, y) && x.pos == y.pos;
        if ((a < b) + (b < a) + eqPos != 1) viol ("order", w, "< is not total and antisymmetric");
        if ((a > b) != (b < a)) viol ("order", w, "> is not the converse of <");
        if ((a <= b) != !(b < a)) viol ("order", w, "<= is not the negation of >");
        if ((a >= b) != !(a < b)) viol ("order", w, ">= is not the negation of <");
        if (a < b && b < c && !(a < c)) viol ("order", w, "< is not transitive");
        // sounds first, position second: position never reverses sounds
        if (!same (x, y)) {
            Syl a2 = a, b2 = b;
            a2.setEndPos (5); b2.setEndPos (5);
            if ((a < b) != (a2 < b2)) viol ("order", w, "position weighs more than sounds");
        } else if ((a < b) != (x.pos < y.pos)) viol ("order", w, "equal sounds not sorted by position");
        ++stat_["triples"];
    }
    // readings
    for (int n = 0; n < count / 4; ++n) {
        vector<SylString> s (3);
        vector<vector<Item>> r (3);
        vector<Item> pool { make(), make(), make() };
        // some differ far from their start only
        const bool far = n % 300 == 7;
        vector<Item> pre;
        if (far) for (int k = 20 + rnd (rnd (4) ? 100 : 1200); k > 0; --k) pre.push_back (pool[rnd (3)]);
        for (int i = 0; i < 3; ++i) {
            int len = rnd (4);
            if (far) for (auto& t : pre) { s[i] += t.s; r[i].push_back (t); }
            if (!far && i && rnd (2)) { s[i] = s[i - 1]; r[i] = r[i - 1]; }
            for (int k = 0; k < len; ++k) { Item t = pool[rnd (3)]; s[i] += t.s; r[i].push_back (t); }
        }
        string w;
        for (auto& v : r) { for (size_t k = pre.size(); k < v.size(); ++k) w += nameOf (v[k]) + ","; w += " "; }
        if (far) w += "after " + to_string (pre.size()) + " equal syllables";
        auto cmp = [&] (int i, int j) {
            for (size_t k = 0; k < r[i].size() && k < r[j].size(); ++k) {
                if (r[i][k].s < r[j][k].s) return -1;
                if (r[j][k].s < r[i][k].s) return 1;
            }
            return sgn ((int) r[i].size() - (int) r[j].size());
        };
        bool eq = r[0].size() == r[1].size();
        for (size_t k = 0; eq && k < r[0].size(); ++k) eq = same (r[0][k], r[1][k]);
        if ((s[0] == s[1]) != eq) viol ("reading-order", w, "== is not identity of the syllables");
        if ((s[0] != s[1]) == eq) viol ("reading-order", w, "!=");
        int c = cmp (0, 1);
        if ((s[0] < s[1]) != (c < 0)) viol ("reading-order", w, "< is not lexicographic");
        if ((s[0] > s[1]) != (c > 0)) viol ("reading-order", w, "> is not lexicographic");
        if ((s[0] <= s[1]) != (c <= 0)) viol ("reading-order", w, "<=");
        if ((s[0] >= s[1]) != (c >= 0)) viol ("reading-order", w, ">=");
        if (s[0] < s[1] && s[1] < s[2] && !(s[0] < s[2])) viol ("reading-order", w, "< is not transitive");
        ++stat_["readings"];
    }
    // groups: any insertion order, whole or piecewise, gives the same sorted set
    for (int n = 0; n < count / 20; ++n) {
        vector<SylString> alts;
        vector<string> names;
        int k = 1 + rnd (5), len = 1 + rnd (3);
        for (int i = 0; i < k; ++i) {
            SylString s;
            string nm;
            for (int j = 0; j < len; ++j) {
                string c { IN[rnd (3)], '_', VO[rnd (3)], FI[rnd (2)], TO[rnd (2)] };
                s += Syl (c, 2 * (j + 1));
                nm += c;
            }
            alts.push_back (s);
            names.push_back (nm);
        }
        set<string> uniq (names.begin(), names.end());
        string w;
        for (auto& x : names) w += x + " ";
        string first;
        for (int perm = 0; perm < 4; ++perm) {
            for (int i = k - 1; i > 0; --i) swap (alts[i], alts[rnd (i + 1)]);
            PronunFrac f (2 * len, alts[0]), g2;
            for (int i = 1; i < k; ++i) { if (perm & 1) g2 += alts[i]; else f += alts[i]; }
            if (perm & 1) f += g2;
            string r;
            const SylString* prev = nullptr;
            int cnt = 0;
            for (auto& s : f) {
                if (prev && !(*prev < s)) viol ("group", w, "group not sorted");
                prev = &s;
                ++cnt;
                for (auto& y : s) r += RawSylOutput().output (y);
                r += " ";
            }
            if (cnt != (int) uniq.size() || doCount (f, 0) != cnt) viol ("group", w, "group has " + to_string (cnt) + " members, " + to_string (uniq.size()) + " expected");
            if (perm == 0) first = r; else if (r != first) viol ("group", w, "group depends on insertion order");
        }
        ++stat_["groups"];
    }
}

//--------------------------------------------------------------- grouping (C09)

typedef vector<string> Reading;

static void
paths (const PronunDAG& d, int node, Reading& cur, set<Reading>& out, size_t cap)
{
    auto e = d.outEdges (node);
    if (e.first == e.second) { if (!cur.empty()) out.insert (cur); return; }
    for (auto it = e.first; it != e.second && out.size() < cap; ++it) {
        const Syl& s = it->second.edgeVal;
        cur.push_back (s.isLiteral() ? "(" + to_string ((int) s.literal()[0]) + ")" : RawSylOutput().output (s).substr (0, 5));
        paths (d, it->second.target, cur, out, cap);
        cur.pop_back();
    }
}

static void
expand (const PronunChain& c, PronunChain::const_iterator at, Reading& cur, set<Reading>& out, unsigned long& n)
{
    if (at == c.end()) { out.insert (cur); ++n; return; }
    auto next = at;
    ++next;
    for (auto& s : *at) {
        size_t keep = cur.size();
        for (auto& y : s) cur.push_back (y.isLiteral() ? "(" + to_string ((int) y.literal()[0]) + ")" : RawSylOutput().output (y).substr (0, 5));
        expand (c, next, cur, out, n);
        cur.resize (keep);
    }
}

static void
group (int count)
{
    static const char* codes[] = { "k_a_1", "n_om0", "krok1", "?_in0", "m_C_0", "g_Ag3" };
    for (int n = 0; n < count; ++n) {
        PronunDAG d;
        string w;
        int last = 1 + rnd (6);
        int edges = 1 + rnd (10);
        // forward edges over positions 0..last; every node made to lie on a path
        vector<tuple<int, int, int>> es;
        for (int i = 0; i < edges; ++i) {
            int a = rnd (last), b = a + 1 + rnd (last - a);
            es.push_back (make_tuple (a, b, rnd (6)));
        }
        // complete so that every start is reachable from 0 and every end leads to last
        for (bool again = true; again; ) {
            again = false;
            set<int> from, to;
            from.insert (last);
            to.insert (0);
            for (auto& e : es) { from.insert (get<0> (e)); to.insert (get<1> (e)); }
            for (auto& e : es) {
                if (!from.count (get<1> (e))) { es.push_back (make_tuple (get<1> (e), get<1> (e) + 1 + rnd (last - get<1> (e)), rnd (6))); again = true; break; }
                if (!to.count (get<0> (e))) { es.push_back (make_tuple (rnd (get<0> (e)), get<0> (e), rnd (6))); again = true; break; }
            }
        }
        // numbering as the parser has it: middle of a double syllable is negative
        bool neg = rnd (3) == 0;
        auto id = [&] (int p) { return neg && p > 0 && p < last && p % 2 ? -(p * 100 + p) : p; };
        // now and then dozens of alternatives over one stretch
        if (n % 50 == 7) {
            int a = rnd (last), b = a + 1 + rnd (last - a), many = 15 + rnd (60);
            for (int i = 0; i < many; ++i) {
                string c;
                c += "kgdtnbpm?"[rnd (9)]; c += "_rlw"[rnd (4)]; c += "aAiIoO"[rnd (6)]; c += "_kn"[rnd (3)]; c += "01234"[rnd (5)];
                if (d.addEdge (id (a), id (b), Syl (c, id (b)))) w += to_string (id (a)) + ">" + to_string (id (b)) + ":" + c + " ";
            }
            // joined to both ends
            if (a) es.push_back (make_tuple (0, a, 0));
            if (b < last) es.push_back (make_tuple (b, last, 1));
            ++stat_["crowded"];
        }
        for (auto& e : es) {
            int a = id (get<0> (e)), b = id (get<1> (e)), k = get<2> (e);
            Syl s = k == 5 && rnd (2) ? Syl (b, u"x") : Syl (string (codes[k]), b);
            if (d.addEdge (a, b, s)) w += to_string (a) + ">" + to_string (b) + ":" + (s.isLiteral() ? "x" : codes[k]) + " ";
        }
        set<Reading> flat, grouped;
        Reading cur;
        paths (d, 0, cur, flat, 100000);
        unsigned long total = 0;
        PronunLatt latt = d.fracDAG().lattice();
        for (auto& c : latt) { cur.clear(); expand (c, c.begin(), cur, grouped, total); }
        if (flat != grouped)
            viol ("grouping", w, "flat " + to_string (flat.size()) + " readings, grouped form expands to " + to_string (grouped.size()));
        if (flat.size() > 1) ++stat_["graphs-multi"];
        ++stat_["graphs"];
        stat_["readings"] += flat.size();
        for (auto& c : latt) { for (auto& f : c) if (doCount (f, 0) > 1) ++stat_["groups-multi"]; ++stat_["chains"]; }
        note (w);
    }
}

int
main (int argc, char** argv)
{
    if (argc < 4) return 3;
    string mode = argv[1];
    rngState = strtoull (argv[2], nullptr, 10) * 7919 + 13;
    int count = atoi (argv[3]);
    if (mode == "--history") {
        histories<CharLabel, DAG<char>> (count);
        histories<SylLabel, DAG<Syl>> (count);
        histories<FracLabel, DAG<PronunFrac>> (count / 3);
        crowds<CharLabel, DAG<char>> (1 + count / 400);
        crowds<SylLabel, DAG<Syl>> (1 + count / 400);
        if (argc > 4) exhaustive (atoi (argv[4]));
    } else if (mode == "--order") order (count);
    else if (mode == "--group") group (count);
    else return 3;
    for (auto& s : stat_) cout << "S " << s.first << ' ' << s.second << '\n';
    for (auto& h : distinct_) cout << "H " << h << '\n';
    cout << "DONE" << endl;
    return 0;
}
