// refmodel.h - executable reference model of the Thai reading rules.
//
// Shares no code with the repository: no repo header, no libthai.  It is the
// oracle the monitors compare the real parser with.
//
// The word is read as a walk over states (position, linked).  Every way to
// read one syllable (or one exception entry, abbreviation, or run of non-Thai
// text) is a move; a move carries the labelled edges it contributes.  The
// readings of the word are the complete walks, so the expected graph is the
// union of the edges of all moves lying on some complete walk.
#ifndef REFMODEL_H
#define REFMODEL_H

#include <cstring>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace ref {

typedef std::u16string Str;

//------------------------------------------------------------------ alphabet

inline bool isCons (char16_t c)
{ return c >= u'ก' && c <= u'ฮ' && c != u'ฤ' && c != u'ฦ'; }
inline bool isLead (char16_t c) { return c >= u'เ' && c <= u'ไ'; }
inline bool isTone (char16_t c) { return c >= 0x0e48 && c <= 0x0e4b; }
inline bool isAboveBelow (char16_t c) { return c >= 0x0e34 && c <= 0x0e39; }
inline bool isVowelChar (char16_t c)
{
    return c == u'ฤ' || c == u'ฦ' || (c >= 0x0e30 && c <= 0x0e39)
           || (c >= 0x0e40 && c <= 0x0e45);
}
inline bool isWordChar (char16_t c)
{ return isCons (c) || isVowelChar (c) || isTone (c) || c == 0x0e47 || c == 0x0e4c; }
inline bool isToken (char16_t c) { return c == u'.' || isWordChar (c); }
inline bool isSylStart (char16_t c) { return isCons (c) || isLead (c); }

static const char SOUND[] = "kcccccgjJJsJydtTTTndtTTTnbpPfPfPmyr*l*wsssHl?H";
static const char CLASS[] = "MHHPPPSMHPPPSMMHPPSMMHPPSMMHHPPPSSSSSSSHHHHSMP";
static const char ENDC[]  = "kkkkkkgtttttntttttntttttnpppppppmyn_n_wttt_n__";

inline char sound (char16_t c)
{ char s = SOUND[c - u'ก']; return s == 'H' ? 'h' : s; }
inline char consClass (char16_t c) { return CLASS[c - u'ก']; }
inline char endSound (char16_t c) { return ENDC[c - u'ก']; }

inline bool isShort (char v) { return v >= 'a' && v <= 'z'; }
inline bool isDeadEnd (char e) { return e == 'k' || e == 't' || e == 'p'; }

// tone of a syllable from class, tone mark (0 = none .. 4) and syllable type
inline char toneOf (char cls, int mark, bool dead, bool shortVowel)
{
    static const char* DIGIT = "01234";
    if (cls == 'M')
        return DIGIT[mark == 0 && dead ? 1 : mark];
    if (cls == 'H')
        return DIGIT[mark == 0 ? (dead ? 1 : 4) : mark];
    // low class
    switch (mark) {
    case 0: return !dead ? '0' : shortVowel ? '3' : '2';
    case 1: return '2';
    case 2: return '3';
    default: return DIGIT[mark];
    }
}

//--------------------------------------------------------------------- edges

struct Edge {
    int from, to;
    std::string code;   // 5-letter syllable code, empty for literal
    Str lit;            // literal text
    bool operator< (const Edge& o) const
    { return std::tie (from, to, code, lit) < std::tie (o.from, o.to, o.code, o.lit); }
    bool operator== (const Edge& o) const
    { return std::tie (from, to, code, lit) == std::tie (o.from, o.to, o.code, o.lit); }
};

typedef std::set<Edge> Edges;
typedef std::map<Str, std::string> DictMap;

// which rules were exercised, for coverage evidence
struct Coverage {
    std::map<std::string, unsigned long> hits;
    void operator() (const char* r) { ++hits[r]; }
};

struct Move {
    int to;
    bool linked;
    std::vector<Edge> edges;
    bool stretch;       // period absorbed by what precedes it
};

struct Init {
    int pos;
    bool pre;
    char preIC, preV, preT;
    char ic, cls, ic2, v;
    bool complete;
    int mark;
    char end;
};

class Model {
public:
    Model (const Str& w, const std::vector<int>& brk, const DictMap* dict,
           Coverage* cov)
        : w (w), brk (brk), dict (dict), cov (cov), maxKey (0)
    {
        if (dict)
            for (auto& e : *dict)
                if (e.first.size() > maxKey) maxKey = e.first.size();
    }

    Edges run()
    {
        // forward exploration, positions only grow (linked moves keep moving
        // on at the next step), so process states in order
        std::set<State> seen;
        std::map<State, std::vector<std::pair<State, Move>>> moves;
        std::set<State> work;
        int n = w.size();
        work.insert (State (0, false));
        while (!work.empty()) {
            State s = *work.begin();
            work.erase (work.begin());
            if (!seen.insert (s).second || s.first >= n)
                continue;
            out.clear();
            step (s.first, s.second);
            for (auto& m : out) {
                State t (m.to, m.linked);
                moves[s].push_back (std::make_pair (t, m));
                if (!seen.count (t)) work.insert (t);
            }
        }
        // backward: which states reach the end
        std::map<State, std::vector<State>> rev;
        for (auto& e : moves)
            for (auto& tm : e.second) rev[tm.first].push_back (e.first);
        std::set<State> alive;
        std::vector<State> st;
        for (auto& s : seen) if (s.first >= n) { alive.insert (s); st.push_back (s); }
        while (!st.empty()) {
            State s = st.back(); st.pop_back();
            for (auto& p : rev[s]) if (alive.insert (p).second) st.push_back (p);
        }
        std::set<int> stretched;
        Edges raw, res;
        for (auto& e : moves)
            for (auto& tm : e.second) {
                if (!alive.count (e.first) || !alive.count (tm.first)) continue;
                if (tm.second.stretch) stretched.insert (e.first.first);
                raw.insert (tm.second.edges.begin(), tm.second.edges.end());
            }
        for (auto e : raw) {
            if (e.to > 0 && stretched.count (e.to)) ++e.to;
            res.insert (e);
        }
        return res;
    }

private:
    typedef std::pair<int, bool> State;

    Str w;
    std::vector<int> brk;
    const DictMap* dict;
    Coverage* cov;
    size_t maxKey;
    std::vector<Move> out;
    std::map<int, int> stopAt;   // segment stop for positions inside a segment

    void hit (const char* r) { if (cov) (*cov) (r); }
    bool is (int p, char16_t c) const { return w[p] == c; }
    static bool in (char16_t c, const char16_t* set)
    { for (; *set; ++set) if (*set == c) return true; return false; }

    // end of the segment that position p lies in (p at a token character)
    int segmentStop (int p)
    {
        // find the segment start: walk segments from the left
        int n = w.size(), s = 0;
        for (;;) {
            while (s < n && !isToken (w[s])) ++s;
            int lim = n;
            for (int b : brk) if (b > s) { lim = b; break; }
            int e = s;
            while (e < lim && isToken (w[e])) ++e;
            if (p < e || e >= n) return e;
            s = e;
        }
    }

    void add (int to, const Edge& e)
    { Move m; m.to = to; m.linked = false; m.stretch = false; m.edges.push_back (e); out.push_back (m); }

    void step (int pos, bool linked)
    {
        int n = w.size();
        if (!isToken (w[pos])) {
            int e = pos;
            while (e < n && !isToken (w[e])) ++e;
            hit ("literal");
            add (e, Edge { pos, e, "", w.substr (pos, e - pos) });
            return;
        }
        int stop = segmentStop (pos);
        if (dict && exceptions (pos, stop)) return;
        if (abbreviation (pos, stop)) return;
        char16_t c = w[pos];
        if (isCons (c))            syllablesCons (pos, stop, linked);
        else if (c == u'เ')        syllablesE (pos, stop, linked);
        else if (isLead (c))       syllablesLead (pos, stop, linked);
        else if (c == u'ฤ' || c == u'ฦ') syllablesRu (pos, stop);
        else if (c == u'.') {
            hit ("period-absorbed");
            Move m; m.to = pos + 1; m.linked = linked; m.stretch = true;
            out.push_back (m);
        } else
            hit ("dead-end");
    }

    //------------------------------------------------- exception dictionary

    bool exceptions (int pos, int stop)
    {
        bool any = false;
        for (size_t len = 1; len <= maxKey && pos + (int) len <= stop; ++len) {
            auto it = dict->find (w.substr (pos, len));
            if (it == dict->end()) continue;
            int end = pos + len;
            if (end < stop && !isSylStart (w[end])) { hit ("except-inside-syllable"); continue; }
            any = true;
            hit (end == stop ? "except-at-stop" : "except-before-syllable");
            Move m; m.to = end; m.linked = false; m.stretch = false;
            std::string d = it->second;
            size_t b = 0;
            for (;;) {
                size_t e = d.find (';', b);
                std::string alt = d.substr (b, e == std::string::npos ? e : e - b);
                int from = pos;
                size_t sb = 0;
                for (;;) {
                    size_t se = alt.find (',', sb);
                    std::string syl = alt.substr (sb, se == std::string::npos ? se : se - sb);
                    int ep = atoi (syl.c_str() + 6);
                    int to = ep < 0 ? ep - 101 * pos : ep + pos;
                    m.edges.push_back (Edge { from, to, syl.substr (0, 5), Str() });
                    from = to;
                    if (se == std::string::npos) break;
                    sb = se + 1;
                }
                if (e == std::string::npos) break;
                b = e + 1;
            }
            out.push_back (m);
        }
        return any;
    }

    //--------------------------------------------------------- abbreviations

    bool abbreviation (int pos, int stop)
    {
        if (pos > 0 && w[pos - 1] != u' ' && w[pos - 1] != u'.') return false;
        int e = pos, n = 0;
        while (e < stop && isCons (w[e])) { ++e; ++n; }
        if (n > 4) return false;
        bool dot = e < stop && w[e] == u'.';
        if (dot) ++e;
        else if (e < stop || n > 1) return false;
        // n letters, then a period; or one letter alone
        Move m; m.to = e; m.linked = false; m.stretch = false;
        if (n == 0) {
            hit ("abbr-lone-period");
            m.edges.push_back (Edge { pos, e, "", Str (1, u'.') });
        }
        for (int i = 0; i < n; ++i) {
            hit (dot ? "abbr-letters" : "abbr-single");
            char16_t c = w[pos + i];
            int to = i == n - 1 ? e : pos + i + 1;
            std::string code;
            code += sound (c); code += "_C_";
            code += consClass (c) == 'H' ? '4' : '0';
            m.edges.push_back (Edge { pos + i, to, code, Str() });
        }
        out.push_back (m);
        return true;
    }

    //---------------------------------------------------- initial consonants

    static Init mk (int pos, char ic, char cls, char ic2 = '_', char v = '*')
    { return Init { pos, false, 0, 0, 0, ic, cls, ic2, v, false, 0, '_' }; }
    static Init mkPre (int pos, char pic, char pv, char pt, char ic, char cls,
                       char v = '*', bool complete = false)
    { return Init { pos, true, pic, pv, pt, ic, cls, '_', v, complete, 0, '_' }; }

    std::vector<Init> inits (int pos, int stop, bool linked)
    {
        std::vector<Init> r;
        char16_t a = w[pos];
        if (!isCons (a)) return r;
        char s = sound (a), k = consClass (a);
        char preA = toneOf (k, 0, true, true);      // tone of unstressed -a
        char preAU = toneOf (k, 0, false, false);   // tone of open long -au

        bool has2 = pos + 1 < stop;
        char16_t b = has2 ? w[pos + 1] : 0;
        bool has3 = pos + 2 < stop;
        char16_t c = has3 ? w[pos + 2] : 0;

        if (has2 && isCons (b)) {
            bool rohan = b == u'ร' && c == u'ร';    // -รร-
            if (b == u'ร') {
                if (in (a, u"จซศส")) {
                    if (!linked && !rohan) { hit ("init-false-cluster"); r.push_back (mk (pos + 2, s, k)); }
                } else if (in (a, u"ขคดทบพฟ")) {
                    if (!linked && !rohan) { hit ("init-cluster-r"); r.push_back (mk (pos + 2, s, k, 'r')); }
                } else if (in (a, u"กตป")) {
                    if (!rohan) { hit (linked ? "init-cluster-r-linked" : "init-cluster-r"); r.push_back (mk (pos + 2, s, k, 'r')); }
                }
                if (has3 && c != u'ร') {
                    if (isSylStart (c)) {
                        if (in (a, u"กคจทธนบปภมวสหอ")) {
                            hit ("init-aura");
                            r.push_back (mkPre (pos + 2, s, 'C', preAU, 'r', 'S', 'a', true));
                        }
                    } else if (c == 0x0e34 && a == u'บ') {
                        hit ("init-bori");
                        r.push_back (mkPre (pos + 3, s, 'C', preAU, 'r', 'S', 'i', true));
                    } else if (c == 0x0e30 && a == u'จ') {
                        hit ("init-chaura");
                        r.push_back (mkPre (pos + 3, s, 'C', preAU, 'r', 'S', 'a', true));
                    }
                }
            } else if (b == u'ล') {
                if (in (a, u"กขคบปผพฟ") && !linked) { hit ("init-cluster-l"); r.push_back (mk (pos + 2, s, k, 'l')); }
            } else if (b == u'ว') {
                if (in (a, u"กขค") && !linked) { hit ("init-cluster-w"); r.push_back (mk (pos + 2, s, k, 'w')); }
            }
            if (a == u'ห' && consClass (b) == 'S' && !rohan) {
                hit ("init-ho-nam");
                r.push_back (mk (pos + 2, sound (b), 'H'));
            }
            if (!rohan) {
                hit ("init-half-a");
                r.push_back (mkPre (pos + 2, s, 'a', preA, sound (b),
                                    consClass (b) == 'S' ? k : consClass (b)));
            }
            if (a == u'บ' && b == u'ด' && (c == 0x0e34 || c == 0x0e35)) {
                hit ("init-bodi");
                Init p = mk (pos + 1, s, k, '_', 'C'); p.complete = true;
                r.push_back (p);
            }
        } else if (has2 && b == u'ฤ') {
            if (c != u'ๅ' && c != u'า') {
                if (in (a, u"กตทป")) {
                    hit ("ru-ri-cluster"); r.push_back (mk (pos + 2, s, k, 'r', 'i'));
                } else if (in (a, u"สศ")) {
                    hit ("ru-ri");
                    r.push_back (mk (pos + 2, s, k, '_', 'i'));
                    r.push_back (mkPre (pos + 2, s, 'a', preA, 'r', k, 'i'));
                } else if (a == u'ว') {
                    hit ("ru-rue-cluster"); r.push_back (mk (pos + 2, s, k, 'r', 'v'));
                } else if (a == u'น') {
                    hit ("ru-rue-separate"); r.push_back (mkPre (pos + 2, s, 'a', preA, 'r', 'S', 'v'));
                } else if (in (a, u"คพ")) {
                    if (has3 && isCons (c) && endSound (c) != '_') {
                        hit ("ru-rue-closed"); r.push_back (mk (pos + 2, s, k, 'r', 'v'));
                    } else {
                        hit ("ru-rue-open"); r.push_back (mkPre (pos + 2, s, 'a', preA, 'r', 'S', 'v', true));
                    }
                } else {
                    hit ("ru-other");
                    if (a != u'ห') {
                        r.push_back (mk (pos + 2, s, k, 'r', 'i'));
                        r.push_back (mk (pos + 2, s, k, 'r', 'v'));
                    }
                    r.push_back (mkPre (pos + 2, s, 'a', preA, 'r', 'S', 'i'));
                    r.push_back (mkPre (pos + 2, s, 'a', preA, 'r', 'S', 'v'));
                    r.push_back (mkPre (pos + 2, s, 'a', preA, 'r', 'S', 'v', true));
                }
            }
        }
        r.push_back (mk (pos + 1, s, k));
        if (has2 && isSylStart (b)) {
            hit ("init-pali-a");
            Init p = mk (pos + 1, s, k, '_', 'a'); p.complete = true;
            r.push_back (p);
        }
        return r;
    }

    //--------------------------------------------------------------- emitting

    void emit (int from, const Init& p, int to, char end, bool linked = false)
    {
        Move m; m.to = to; m.linked = linked; m.stretch = false;
        int at = from;
        if (p.pre) {
            int mid = -(from * 100 + to);
            std::string c; c += p.preIC; c += '_'; c += p.preV; c += '_'; c += p.preT;
            m.edges.push_back (Edge { at, mid, c, Str() });
            at = mid;
        }
        bool dead = end == '_' ? isShort (p.v) : isDeadEnd (end);
        std::string c;
        c += p.ic; c += p.ic2; c += p.v; c += end;
        c += toneOf (p.cls, p.mark, dead, isShort (p.v));
        m.edges.push_back (Edge { at, to, c, Str() });
        out.push_back (m);
    }

    // silenced letters (karan); each returns the position after them
    int karan1 (int p, int stop)
    {
        if (p + 1 < stop && is (p + 1, 0x0e4c) && isCons (w[p])) { hit ("karan-1"); return p + 2; }
        return p;
    }
    int karanIU (int p, int stop)
    {
        if (p + 2 < stop && is (p + 2, 0x0e4c) && isCons (w[p])
            && (is (p + 1, 0x0e34) || is (p + 1, 0x0e38))) { hit ("karan-iu"); return p + 3; }
        return p;
    }
    int karanAny (int p, int stop)
    {
        int q = karan1 (p, stop);
        if (q != p) return q;
        q = karanIU (p, stop);
        if (q != p) return q;
        if (p + 2 < stop && is (p + 2, 0x0e4c) && isCons (w[p]) && isCons (w[p + 1])) {
            hit ("karan-2"); return p + 3;
        }
        return p;
    }

    bool endable (int p, const char16_t* excl)
    { return isCons (w[p]) && endSound (w[p]) != '_' && !in (w[p], excl); }

    // closed by one final, with no linking
    void closeSimple (int from, const Init& p, int stop, const char16_t* excl = u"")
    {
        if (p.pos >= stop || !endable (p.pos, excl)) return;
        hit ("end-simple");
        emit (from, p, karanAny (p.pos + 1, stop), endSound (w[p.pos]));
    }

    // closed by one final that may also begin the next syllable
    void closeComplex (int from, const Init& p, int stop, const char16_t* excl = u"")
    {
        if (p.pos >= stop || !endable (p.pos, excl)) return;
        char16_t f = w[p.pos];
        char e = endSound (f);
        int k = karanAny (p.pos + 1, stop);
        hit ("end-complex");
        emit (from, p, k, e);
        if (k > p.pos + 1 || p.pos + 1 >= stop) return;
        int q = p.pos + 1;
        char16_t s = w[q], next = s;
        if (isCons (s)) {
            ++q;
            if (s == u'ร' && in (f, u"กคชตท") && (q >= stop || isSylStart (w[q]))) {
                hit ("end-with-ro"); emit (from, p, q, e);
            }
            if (q == stop) return;
            next = w[q];
        } else if (s == 0x0e34 || s == 0x0e38) {
            ++q;
            if (in (f, u"ฒตธร") && (q >= stop || isSylStart (w[q]))) {
                hit ("end-with-iu"); emit (from, p, q, e);
                if (q == stop) return;
            }
        }
        static const char16_t V[] = { u'ฤ', 0x0e30, 0x0e31, 0x0e32, 0x0e34, 0x0e35, 0x0e38, 0x0e39, 0 };
        if (in (next, V) || isCons (next)) { hit ("end-linking"); emit (from, p, p.pos, e, true); }
    }

    static int mark (char16_t c) { return c - 0x0e47; }

    //----------------------------------------- syllables beginning with cons

    void syllablesCons (int from, int stop, bool linked)
    {
        for (Init p : inits (from, stop, linked)) {
            if (p.pos >= stop) continue;
            if (p.complete) { hit ("complete"); emit (from, p, p.pos, '_'); continue; }
            char16_t c = w[p.pos];
            if (c == 0x0e31) {                       // mai han akat
                ++p.pos;
                if (p.pos < stop && isTone (w[p.pos])) { p.mark = mark (w[p.pos]); ++p.pos; }
                if (p.pos >= stop) continue;
                if (is (p.pos, u'ว')) {
                    ++p.pos;
                    if (p.pos < stop && is (p.pos, 0x0e30)) { ++p.pos; p.v = 't'; hit ("v-ua"); }
                    else { p.v = 'T'; hit ("v-uaa"); }
                    emit (from, p, karan1 (p.pos, stop), '_');
                } else {
                    p.v = 'a'; hit ("v-han-akat");
                    if (p.mark) closeSimple (from, p, stop); else closeComplex (from, p, stop);
                }
            } else if (isAboveBelow (c)) {
                p.v = "iIvVuU"[c - 0x0e34];
                hit ("v-above-below");
                ++p.pos;
                if (p.pos < stop && isTone (w[p.pos])) { p.mark = mark (w[p.pos]); ++p.pos; }
                if (p.pos >= stop || isLead (w[p.pos]) || p.v != 'V') {
                    int k = karan1 (p.pos, stop);
                    if (k == p.pos) {
                        k = karanIU (p.pos, stop);
                        if (k != p.pos) { emit (from, p, k, '_'); continue; }
                    }
                    p.pos = k;
                    emit (from, p, k, '_');
                }
                if (p.pos < stop && !isLead (w[p.pos])) {
                    if (p.v == 'V') {
                        if (is (p.pos, u'อ')) { hit ("v-uee-o"); emit (from, p, karan1 (p.pos + 1, stop), '_'); }
                        else closeSimple (from, p, stop);
                    } else {
                        const char16_t* ex = p.v == 'i' || p.v == 'I' ? u"ย" : u"";
                        if (p.v == 'v' || p.mark) closeSimple (from, p, stop, ex);
                        else closeComplex (from, p, stop, ex);
                    }
                }
            } else if (c == 0x0e47) {                // maitaikhu
                ++p.pos;
                if (p.pos < stop && is (p.pos, u'อ')) {
                    ++p.pos;
                    p.v = 'c'; hit ("v-maitaikhu-o");
                    p.pos = karan1 (p.pos, stop);
                    closeSimple (from, p, stop);
                }
            } else {
                if (isTone (c)) {
                    p.mark = mark (c); ++p.pos;
                    if (p.pos >= stop) continue;
                    c = w[p.pos];
                }
                switch (c) {
                case 0x0e30:
                    hit ("v-a"); p.v = 'a';
                    emit (from, p, karan1 (p.pos + 1, stop), '_');
                    break;
                case u'า':
                    hit ("v-aa"); p.v = 'A';
                    p.pos = karan1 (p.pos + 1, stop);
                    emit (from, p, p.pos, '_');
                    closeComplex (from, p, stop);
                    break;
                case u'ำ':
                    hit ("v-am"); p.v = 'a';
                    emit (from, p, karan1 (p.pos + 1, stop), 'm');
                    break;
                case u'ว':
                    hit ("v-w"); p.v = 'T'; ++p.pos;
                    closeSimple (from, p, stop);
                    break;
                case u'อ':
                    hit ("v-o"); p.v = 'C';
                    p.pos = karan1 (p.pos + 1, stop);
                    emit (from, p, p.pos, '_');
                    closeSimple (from, p, stop);
                    break;
                case u'ร':
                    ++p.pos;
                    if (p.ic != 'r') {
                        hit ("v-cr"); p.v = 'C';
                        p.pos = karan1 (p.pos, stop);
                        emit (from, p, p.pos, 'n');
                    }
                    if (p.pos < stop && is (p.pos, u'ร')) {
                        hit ("v-rohan"); p.v = 'a'; ++p.pos;
                        int k = karan1 (p.pos, stop);
                        emit (from, p, k, 'n');
                        if (k == p.pos) closeComplex (from, p, stop);
                    }
                    break;
                default:
                    if (!isCons (c)) break;
                    if (p.v == '*') {
                        if (p.ic2 != 'w' && !linked) {
                            hit ("v-implicit-o"); p.v = 'o';
                            closeSimple (from, p, stop, u"ยว");
                        }
                    } else {
                        hit ("v-cons-ru");
                        emit (from, p, p.pos, '_');
                        closeComplex (from, p, stop, u"ว");
                    }
                }
            }
        }
    }

    //------------------------------------------------- syllables beginning เ

    void syllablesE (int from, int stop, bool linked)
    {
        if (from + 1 >= stop) return;
        for (Init p : inits (from + 1, stop, linked)) {
            if (p.complete) continue;
            bool splitO = p.pre && p.ic == '?';     // เcอ is never ca-เอ
            p.end = '_';
            if (p.pos >= stop) {
                if (!splitO) { hit ("e-final"); p.v = 'E'; emit (from, p, p.pos, '_'); }
                continue;
            }
            char16_t c = w[p.pos];
            if (c == 0x0e34) {                       // เ-ิ-
                p.v = 'W'; hit ("e-oe"); ++p.pos;
                if (p.pos < stop && isTone (w[p.pos])) { p.mark = mark (w[p.pos]); ++p.pos; }
                if (p.pos >= stop) continue;
                p.pos = karan1 (p.pos, stop);
                closeSimple (from, p, stop);
                continue;
            }
            if (c == 0x0e35 || c == 0x0e37) {        // เ-ีย, เ-ือ
                bool ia = c == 0x0e35;
                ++p.pos;
                if (p.pos < stop && isTone (w[p.pos])) { p.mark = mark (w[p.pos]); ++p.pos; }
                if (p.pos >= stop || !is (p.pos, ia ? u'ย' : u'อ')) continue;
                ++p.pos;
                bool sh = p.pos < stop && is (p.pos, 0x0e30);
                if (sh) ++p.pos;
                p.v = ia ? (sh ? 'y' : 'Y') : (sh ? 'z' : 'Z');
                hit (ia ? (sh ? "e-ia" : "e-iaa") : (sh ? "e-uea" : "e-ueaa"));
                p.pos = karan1 (p.pos, stop);
                emit (from, p, p.pos, '_');
                if (!sh) { if (ia) closeComplex (from, p, stop); else closeSimple (from, p, stop); }
                continue;
            }
            if (c == 0x0e47) {                       // เ-็-
                ++p.pos; p.v = 'e'; hit ("e-maitaikhu");
                closeSimple (from, p, stop);
                continue;
            }
            if (isTone (c)) {
                p.mark = mark (c); ++p.pos;
                if (p.pos >= stop) { hit ("e-tone-final"); p.v = 'E'; emit (from, p, p.pos, '_'); continue; }
                c = w[p.pos];
            }
            if (c == u'อ') {
                if (!splitO) { hit ("e-before-o"); p.v = 'E'; emit (from, p, karan1 (p.pos, stop), '_'); }
                ++p.pos;
                if (p.pos < stop && is (p.pos, 0x0e30)) { ++p.pos; p.v = 'w'; hit ("e-oe-short"); }
                else { p.v = 'W'; hit ("e-oee"); }
                emit (from, p, karan1 (p.pos, stop), '_');
            } else if (c == 0x0e30) {
                if (!splitO) { hit ("e-short"); p.v = 'e'; emit (from, p, karan1 (p.pos + 1, stop), '_'); }
            } else if (c == u'า') {
                ++p.pos;
                if (p.pos < stop && is (p.pos, 0x0e30)) {
                    hit ("e-au"); p.v = 'c';
                    emit (from, p, karan1 (p.pos + 1, stop), '_');
                } else {
                    hit ("e-ao"); p.v = 'a';
                    emit (from, p, karan1 (p.pos, stop), 'w');
                }
            } else if (c == u'ย' && (p.pos + 1 >= stop || isSylStart (w[p.pos + 1]))) {
                hit ("e-oey"); p.v = 'W';
                emit (from, p, karan1 (p.pos + 1, stop), 'y');
            } else if (!splitO) {
                hit ("e-long"); p.v = 'E';
                p.pos = karan1 (p.pos, stop);
                emit (from, p, p.pos, '_');
                closeComplex (from, p, stop);
            }
        }
    }

    //------------------------------------------ syllables beginning แ โ ใ ไ

    void syllablesLead (int from, int stop, bool linked)
    {
        if (from + 1 >= stop) return;
        char16_t l = w[from];
        for (Init p : inits (from + 1, stop, linked)) {
            if (p.complete) continue;
            if (p.pos < stop && isTone (w[p.pos])) { p.mark = mark (w[p.pos]); ++p.pos; }
            char16_t c = p.pos < stop ? w[p.pos] : 0;
            if (l == u'แ') {
                if (c == 0x0e47) {
                    ++p.pos; p.v = 'x'; hit ("ae-maitaikhu");
                    closeSimple (from, p, stop);
                } else if (c == 0x0e30) {
                    p.v = 'x'; hit ("ae-short");
                    emit (from, p, karan1 (p.pos + 1, stop), '_');
                } else {
                    p.v = 'X'; hit ("ae-long");
                    p.pos = karan1 (p.pos, stop);
                    emit (from, p, p.pos, '_');
                    closeSimple (from, p, stop);
                }
            } else if (l == u'โ') {
                bool sh = c == 0x0e30;
                if (sh) ++p.pos;
                p.v = sh ? 'o' : 'O'; hit (sh ? "o-short" : "o-long");
                int k = karan1 (p.pos, stop);
                if (k == p.pos) {
                    k = karanIU (p.pos, stop);
                    if (k != p.pos) { emit (from, p, k, '_'); continue; }
                }
                p.pos = k;
                emit (from, p, p.pos, '_');
                if (!sh) closeComplex (from, p, stop);
            } else {
                p.v = 'a';
                hit (l == u'ไ' ? "ai-malai" : "ai-muan");
                if (l == u'ไ' && c == u'ย' && (p.pos + 1 == stop || isSylStart (w[p.pos + 1]))) {
                    hit ("ai-yo"); emit (from, p, p.pos + 1, 'y');
                }
                emit (from, p, karan1 (p.pos, stop), 'y');
            }
        }
    }

    //------------------------------------------------ syllables beginning ฤ ฦ

    void syllablesRu (int from, int stop)
    {
        Init p = mk (from + 1, w[from] == u'ฦ' ? 'l' : 'r', 'S');
        p.v = 'v';
        if (from + 1 >= stop) { hit ("ru-final"); emit (from, p, from + 1, '_'); return; }
        char16_t c = w[from + 1];
        if (c == u'ๅ' || c == u'า') { hit ("ru-long"); p.v = 'V'; emit (from, p, from + 2, '_'); return; }
        if (!isCons (c)) return;
        if (endSound (c) == '_' || (from + 2 < stop && !isSylStart (w[from + 2]))) {
            hit ("ru-open"); emit (from, p, from + 1, '_');
        } else {
            if (in (c, u"ณทษ")) { p.v = 'i'; hit ("ru-ri-closed"); } else hit ("ru-rue-final");
            closeComplex (from, p, stop);
        }
    }
};

inline Edges analyse (const Str& w, const std::vector<int>& brk,
                      const DictMap* dict = nullptr, Coverage* cov = nullptr)
{
    return Model (w, brk, dict, cov).run();
}

} // namespace ref

#endif
