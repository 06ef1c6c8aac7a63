// mon.cc - online monitor around the parser.
//
// Reads words (one per line) or enumerates them, parses each with the real
// parser and judges the resulting graph.  Only interfaces exercised by the
// repository's own tests are used.
//
//   mon [options] < words
//     --enum LEN         enumerate all strings of LEN letters instead of stdin
//     --shard I N        take every N-th enumerated word / input line
//     --alpha FILE       alphabet for --enum (UTF-8 characters, one per line)
//     --prefix S --suffix S   put around enumerated words
//     --break            let the parser segment the input
//     --dict FILE.dic FILE.tsv   exception dictionary and its source
//     --model            compare with the reference model
//     --cover            check coverage of the input by the graph
//     --crumb FILE       breadcrumb: word being processed (for crash reports)
//     --tone             compare tones only, on graphs whose structure agrees
//     --attr KIND        before reporting a difference from the model, make sure
//                        the same text without the feature under test agrees
//                        (brk: each piece alone; dict: no dictionary; karan: no
//                        silenced groups; lit: each run of Thai letters alone)
//     --product          input lines are A TAB separator TAB B; the graph of the
//                        joined text must be the product of the parts' graphs
//     --max-viol N
// Output: lines "V <kind>\t<word>\t<detail>", then "S <name> <count>" lines,
// and finally "DONE".

#include "refmodel.h"

#include "parser/parser.h"
#include "output/sylout-raw.h"
#include "lattice/pron-dag.h"

#include <thai/thbrk.h>
#include <thai/thwbrk.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <codecvt>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <locale>
#include <unordered_set>

using namespace std;

static string
u8 (const u16string& s)
{
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        uint32_t c = s[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size()
            && s[i+1] >= 0xdc00 && s[i+1] < 0xe000)
            c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00);
        if (c < 0x80) r += (char) c;
        else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
        else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
    }
    return r;
}

// own decoder; the corpora are valid UTF-8
static u16string
u16 (const string& s)
{
    u16string r;
    for (size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i];
        uint32_t v; int n;
        if (c < 0x80) { v = c; n = 1; }
        else if (c < 0xe0) { v = c & 31; n = 2; }
        else if (c < 0xf0) { v = c & 15; n = 3; }
        else { v = c & 7; n = 4; }
        for (int k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | (s[i + k] & 63);
        i += n;
        if (v >= 0x10000) { v -= 0x10000; r += (char16_t) (0xd800 + (v >> 10)); r += (char16_t) (0xdc00 + (v & 0x3ff)); }
        else r += (char16_t) v;
    }
    return r;
}

static string
show (const ref::Edge& e)
{
    return to_string (e.from) + "->" + to_string (e.to) + " "
           + (e.code.empty() ? "(" + u8 (e.lit) + ")" : e.code);
}

// Readings with double syllables go through a node of their own, whose number
// is of no interest: replace every way through such nodes by one edge.
static ref::Edges
contract (const ref::Edges& g)
{
    map<int, vector<const ref::Edge*>> out;
    for (auto& e : g) if (e.from < 0) out[e.from].push_back (&e);
    ref::Edges r;
    for (auto& e : g) {
        if (e.from < 0) continue;
        if (e.to >= 0) { r.insert (e); continue; }
        vector<ref::Edge> todo { e };
        for (int guard = 0; !todo.empty() && guard < 100000; ++guard) {
            ref::Edge x = todo.back();
            todo.pop_back();
            if (x.to >= 0) { r.insert (x); continue; }
            auto o = out.find (x.to);
            if (o == out.end()) { r.insert (x); continue; }
            if (x.code.size() > 60) { r.insert (x); continue; }
            for (auto n : o->second)
                todo.push_back (ref::Edge { x.from, n->to, x.code + "+" + n->code, n->lit });
        }
    }
    return r;
}

static ref::Edges
toneless (const ref::Edges& g)
{
    ref::Edges r;
    for (auto e : g) {
        for (size_t i = 4; i < e.code.size(); i += 6) e.code[i] = '*';
        r.insert (e);
    }
    return r;
}

struct Monitor {
    bool model = false, cover = false, brk = false, tone = false, product = false;
    string attr;
    unique_ptr<Parser> parser, plain;
    ThBrk* thBrk = nullptr;
    ref::DictMap dict;
    bool hasDict = false;
    ref::Coverage cov;
    map<string, unsigned long> stat;
    unordered_set<string> shapes;
    unsigned long nViol = 0, maxViol = 20;
    char* crumb = nullptr;
    volatile unsigned long* begun = nullptr;
    RawSylOutput raw;

    void viol (const string& kind, const string& w0, const string& detail)
    {
        string word = w0;
        for (auto& c : word) if (c == '\t') c = '|';
        if (nViol++ < maxViol)
            cout << "V " << kind << '\t' << word << '\t' << detail << endl;
    }

    vector<int> breaks (const u16string& w)
    {
        if (!brk || w.empty()) return vector<int>();
        vector<thwchar_t> t (w.begin(), w.end());
        t.push_back (0);
        vector<int> pos (w.size() + 1);
        int n = th_brk_wc_find_breaks (thBrk, t.data(), pos.data(), w.size());
        pos.resize (n);
        return pos;
    }

    ref::Edges graph (const Parser& p, const string& word, bool judge, unsigned long* n)
    {
        PronunDAG dag = p.parseWord (word);
        ref::Edges got;
        for (auto it = dag.outBegin(); it != dag.outEnd(); ++it) {
            ++*n;
            const Syl& s = it->second.edgeVal;
            ref::Edge e { it->first, it->second.target, "", u"" };
            if (s.isLiteral()) e.lit = s.literal();
            else {
                e.code = raw.output (s);
                size_t at = e.code.find ('@');
                e.code.resize (at == string::npos ? e.code.size() : at);
            }
            if (judge && s.endPos() != it->second.target)
                viol ("endpos", word, show (e) + " labelled @" + to_string (s.endPos()));
            if (!got.insert (e).second && judge)
                viol ("duplicate-edge", word, show (e));
        }
        return got;
    }

    // does the plain reading of a control text agree with the model?
    bool agrees (const Parser& p, const u16string& w, const ref::DictMap* d)
    {
        unsigned long n = 0;
        ++stat["controls"];
        return contract (graph (p, u8 (w), false, &n)) == contract (ref::analyse (w, vector<int>(), d, nullptr));
    }

    bool attributable (const u16string& w)
    {
        if (attr == "dict") {
            vector<int> b = breaks (w);
            unsigned long n = 0;
            return contract (graph (*plain, u8 (w), false, &n)) == contract (ref::analyse (w, b, nullptr, nullptr));
        }
        vector<u16string> controls;
        const Parser* p = plain.get();
        const ref::DictMap* d = nullptr;
        if (attr == "brk") {
            int prev = 0;
            vector<int> b = breaks (w);
            b.push_back (w.size());
            for (int x : b) { controls.push_back (w.substr (prev, x - prev)); prev = x; }
        } else if (attr == "lit") {
            u16string run;
            for (auto c : w + u16string (1, u' '))
                if (ref::isWordChar (c)) run += c;
                else { if (!run.empty()) controls.push_back (run); run.clear(); }
        } else if (attr == "karan") {
            for (int pair = 0; pair < 2; ++pair) {
                u16string t;
                for (size_t i = 0; i < w.size(); ++i) {
                    if (w[i] == 0x0e4c) {
                        if (!t.empty() && (t.back() == 0x0e34 || t.back() == 0x0e38)) t.pop_back();
                        for (int k = 0; k <= pair && !t.empty() && ref::isCons (t.back()); ++k) t.pop_back();
                    } else t += w[i];
                }
                controls.push_back (t);
            }
        } else return true;
        for (auto& c : controls) if (!agrees (*p, c, d)) return false;
        return true;
    }

    void one (const string& line)
    {
        string word = line;
        if (begun) ++*begun;
        if (nViol > 3 * maxViol) return;       // verdict is clear
        if (crumb) { size_t n = min<size_t> (word.size(), 4095); memcpy (crumb, word.data(), n); crumb[n] = 0; }
        if (product) { onePair (line); return; }
        ++stat["words"];
        u16string w = u16 (word);
        unsigned long nEdges = 0;
        ref::Edges got = graph (*parser, word, cover, &nEdges);
        stat["edges"] += nEdges;
        if (nEdges) ++stat["words-with-reading"];
        if (nEdges > 1) ++stat["words-multi-edge"];

        if (cover) checkCover (word, w, got);
        if (model || tone) {
            ref::Edges want = contract (ref::analyse (w, breaks (w), hasDict ? &dict : nullptr, &cov));
            ref::Edges have = contract (got);
            stat["edges-expected"] += want.size();
            if (have != want) {
                string d;
                for (auto& e : want) if (!have.count (e)) d += " missing[" + show (e) + "]";
                for (auto& e : have) if (!want.count (e)) d += " extra[" + show (e) + "]";
                if (tone) {
                    if (toneless (have) == toneless (want)) viol ("tone", word, d);
                    else ++stat["structure-differs"];
                } else if (!attributable (w)) ++stat["attributed-elsewhere"];
                else viol ("model", word, d);
            } else if (!want.empty()) {
                ++stat["graphs-compared"];
                for (auto& e : want)
                    for (size_t i = 0; i + 4 < e.code.size(); i += 6) ++tones[e.code.substr (i, 5)];
            }
        }
        noteShape (got);
    }

    map<string, unsigned long> tones;

    void noteShape (const ref::Edges& got)
    {
        // distinct graph shapes seen, bounded memory
        if (shapes.size() < 2000000 && !got.empty()) {
            string k;
            for (auto& e : got) { k += e.code.empty() ? "L" : e.code; k += to_string (e.from) + "," + to_string (e.to) + ";"; }
            shapes.insert (to_string (hash<string>() (k)));
        }
    }

    void onePair (const string& line)
    {
        size_t t1 = line.find ('\t'), t2 = line.find ('\t', t1 + 1);
        string a = line.substr (0, t1), sep = line.substr (t1 + 1, t2 - t1 - 1), b = line.substr (t2 + 1);
        ++stat["words"];
        unsigned long n = 0, na = 0, nb = 0;
        int la = u16 (a).size(), ls = u16 (sep).size();
        ref::Edges whole = contract (graph (*parser, a + sep + b, false, &n));
        ref::Edges ga = contract (graph (*parser, a, false, &na)), gb = contract (graph (*parser, b, false, &nb));
        ref::Edges want;
        if (!ga.empty() && !gb.empty()) {
            want = ga;
            want.insert (ref::Edge { la, la + ls, "", u16 (sep) });
            for (auto e : gb) { e.from += la + ls; e.to += la + ls; want.insert (e); }
            ++stat["products-readable"];
        } else ++stat["products-unreadable"];
        stat["edges"] += whole.size();
        if (whole != want) {
            string d;
            for (auto& e : want) if (!whole.count (e)) d += " missing[" + show (e) + "]";
            for (auto& e : whole) if (!want.count (e)) d += " extra[" + show (e) + "]";
            viol ("product", line, d);
        }
        noteShape (whole);
    }

    void checkCover (const string& word, const u16string& w, const ref::Edges& g)
    {
        int n = w.size();
        if (g.empty()) { ++stat["cover-empty"]; return; }
        map<int, vector<const ref::Edge*>> out, in;
        for (auto& e : g) { out[e.from].push_back (&e); in[e.to].push_back (&e); }
        if (!out.count (0)) viol ("no-start", word, "no reading starts at the beginning");
        if (!in.count (n)) viol ("no-end", word, "no reading reaches the end");
        for (auto& o : out) {
            if (o.first != 0 && !in.count (o.first)) viol ("orphan", word, show (*o.second[0]));
            if (o.first > n || o.first == n) viol ("past-end", word, show (*o.second[0]));
        }
        for (auto& i : in) {
            if (i.first == n) continue;
            if (!out.count (i.first)) viol ("stops-short", word, show (*i.second[0]));
        }
        for (auto& e : g) {
            ++stat["cover-edges"];
            if (e.from >= 0 && e.to >= 0 && e.to <= e.from)
                viol ("not-forward", word, show (e));
            if (e.to > n) viol ("past-end", word, show (e));
            if (e.from < 0) {
                // second half of a double syllable: real start lies before it
                for (auto p : in[e.from])
                    if (p->from >= 0 && e.to >= 0 && p->from >= e.to) viol ("not-forward", word, show (e));
            }
            if (!e.code.empty()) {
                // a syllable stands on at least one consonant (or ru/lu)
                int b = e.from, t = e.to;
                if (b >= 0 && t >= 0 && t <= n) {
                    bool letter = false;
                    for (int i = b; i < t; ++i) {
                        if (ref::isCons (w[i]) || w[i] == u'ฤ' || w[i] == u'ฦ') letter = true;
                        if (!ref::isToken (w[i])) viol ("reads-non-thai", word, show (e));
                    }
                    if (!letter) viol ("no-letter", word, show (e));
                }
            } else {
                int b = e.from, len = e.lit.size();
                if (b < 0 || b + len > n || w.compare (b, len, e.lit) != 0)
                    viol ("literal-text", word, show (e));
                else {
                    if (!(e.to == b + len || (e.to == b + len + 1 && w[b + len] == u'.')))
                        viol ("literal-span", word, show (e));
                    for (auto c : e.lit)
                        if (ref::isWordChar (c)) viol ("thai-as-literal", word, show (e));
                    ++stat["cover-literals"];
                }
            }
        }
        // every character outside Thai letters and periods lies in a literal
        for (int i = 0; i < n; ++i) {
            if (ref::isToken (w[i])) continue;
            bool ok = false;
            for (auto& e : g)
                if (e.code.empty() && e.from >= 0 && e.from <= i && i < e.from + (int) e.lit.size()) ok = true;
            if (!ok) viol ("lost-text", word, "position " + to_string (i));
        }
    }
};

// a word that takes half a minute of processor time is a hang
static volatile unsigned long wordsBegun;

static void
onTick (int)
{
    static unsigned long last;
    static int same;
    same = last == wordsBegun ? same + 1 : 0;
    last = wordsBegun;
    if (same >= 6) _exit (94);
}

int
main (int argc, char** argv)
{
    signal (SIGVTALRM, onTick);
    struct itimerval every = { { 5, 0 }, { 5, 0 } };
    setitimer (ITIMER_VIRTUAL, &every, nullptr);

    Monitor m;
    m.begun = &wordsBegun;
    int enumLen = -1, shard = 0, nShards = 1;
    string alphaFile, prefix, suffix, dic, tsv;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a == "--enum") enumLen = atoi (argv[++i]);
        else if (a == "--shard") { shard = atoi (argv[++i]); nShards = atoi (argv[++i]); }
        else if (a == "--alpha") alphaFile = argv[++i];
        else if (a == "--prefix") prefix = argv[++i];
        else if (a == "--suffix") suffix = argv[++i];
        else if (a == "--break") m.brk = true;
        else if (a == "--dict") { dic = argv[++i]; tsv = argv[++i]; }
        else if (a == "--model") m.model = true;
        else if (a == "--tone") m.tone = true;
        else if (a == "--attr") m.attr = argv[++i];
        else if (a == "--product") m.product = true;
        else if (a == "--cover") m.cover = true;
        else if (a == "--max-viol") m.maxViol = atol (argv[++i]);
        else if (a == "--crumb") {
            int fd = open (argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || ftruncate (fd, 4096) != 0) return 3;
            m.crumb = (char*) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m.crumb == MAP_FAILED) return 3;
        } else { cerr << "bad option " << a << endl; return 3; }
    }
    m.parser.reset (new Parser (m.brk));
    // control parser: no dictionary, segmentation only where it is not under test
    m.plain.reset (new Parser (m.brk && m.attr == "dict"));
    if (m.brk) m.thBrk = th_brk_new (nullptr);
    if (!dic.empty()) {
        if (!m.parser->loadExceptDict (dic.c_str())) { cerr << "cannot load " << dic << endl; return 4; }
        ifstream f (tsv);
        string l;
        while (getline (f, l)) {
            size_t t = l.find ('\t');
            if (t != string::npos) m.dict[u16 (l.substr (0, t))] = l.substr (t + 1);
        }
        m.hasDict = true;
    }

    if (enumLen >= 0) {
        vector<string> alpha;
        ifstream f (alphaFile);
        string l;
        while (getline (f, l)) if (!l.empty()) alpha.push_back (l);
        if (alpha.empty()) return 3;
        unsigned long total = 1, k = alpha.size();
        for (int i = 0; i < enumLen; ++i) total *= k;
        for (unsigned long i = shard; i < total; i += nShards) {
            string w;
            unsigned long x = i;
            for (int j = 0; j < enumLen; ++j) { w = alpha[x % k] + w; x /= k; }
            m.one (prefix + w + suffix);
        }
    } else {
        string l;
        unsigned long i = 0;
        while (getline (cin, l))
            if (i++ % nShards == (unsigned long) shard) m.one (l);
    }
    for (auto& s : m.stat) cout << "S " << s.first << ' ' << s.second << '\n';
    for (auto& s : m.cov.hits) cout << "R " << s.first << ' ' << s.second << '\n';
    for (auto& s : m.tones) cout << "T " << s.first << ' ' << s.second << '\n';
    for (auto& s : m.shapes) cout << "H " << s << '\n';
    cout << "S violations " << m.nViol << '\n';
    cout << "DONE" << endl;
    if (m.thBrk) th_brk_delete (m.thBrk);
    return 0;
}
