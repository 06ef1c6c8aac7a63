// cycles.cc - work done over and over must not use up memory or open files (C31).
//
//   cycles SEED COUNT DICT [DICT...]     words on stdin; dictionaries may be bad
// A cycle is a fixed random sequence of uses of the library; all its objects
// are gone at its end.  It is repeated in rounds, and the memory in use and the
// open files are compared between rounds.
// Output: "V kind TAB witness TAB detail", "S name count", "H hash", "DONE".

#include "dict/dict.h"
#include "lattice/lattice.h"
#include "lattice/pron-dag.h"
#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "parser/parser.h"
#include "maybe.h"

#include <cstdint>
#include <cstdlib>
#include <dirent.h>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using namespace std;

static uint64_t rngState;
static uint64_t
rnd (uint64_t n)
{
    rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17;
    return (rngState >> 11) % n;
}

static unique_ptr<ISylOutput>
notation (int k)
{
    switch (k) {
    case 0:  return unique_ptr<ISylOutput> (new RawSylOutput());
    case 1:  return unique_ptr<ISylOutput> (new ThaiSylOutput());
    case 2:  return unique_ptr<ISylOutput> (new RomanSylOutput());
    case 3:  return unique_ptr<ISylOutput> (new PhoneticSylOutput());
    default: return unique_ptr<ISylOutput> (new SoundexSylOutput());
    }
}

static unique_ptr<IOutput>
formatter (int k)
{
    if (k == 0)  return doMake<IOutput, RomanOutput> (true, is_constructible<RomanOutput, bool>());
    if (k < 6)   return unique_ptr<IOutput> (new DelimOutput (notation (k - 1), ' '));
    if (k < 11)  return unique_ptr<IOutput> (new JsonOutput (notation (k - 6)));
    return unique_ptr<IOutput> (new GroupedJsonOutput (notation (k - 11)));
}

static vector<string> words, dicts;
static map<string, unsigned long> stat_;

static void
use (const Parser& p, const vector<string>& ws, int how)
{
    for (auto& w : ws) try {
        PronunDAG d = p.parseWord (w);
        PronunDAG e (d);
        d.unionDAG (e);
        if (how & 1) { auto f = formatter (how / 2 % 16); f->output (d); }
        if (how & 2) { PronunDAG g (move (d)); e = g; }
    } catch (const range_error&) { }  // not UTF-8
}

// one cycle; the same seed does the same
static void
cycle (uint64_t seed, bool count)
{
    rngState = seed * 7919 + 13;
    int len = 1 + rnd (4);
    for (int n = 0; n < len; ++n) {
        vector<string> ws;
        for (int i = 1 + rnd (4); i > 0; --i) ws.push_back (words[rnd (words.size())]);
        string dic = dicts[rnd (dicts.size())], dic2 = dicts[rnd (dicts.size())];
        int how = rnd (64), op = rnd (7);
        switch (op) {
        case 0: { Dict d; d.open (dic.c_str()); if (how & 1) doClose (d, 0); if (how & 2) d.open (dic2.c_str()); break; }
        case 1: { Dict d (dic.c_str()); if (how & 1) d.open (dic2.c_str()); if (how & 2) { doClose (d, 0); doClose (d, 0); } break; }
        case 2: {
            Dict d;
            if (!d.open (dic.c_str())) break;
            u16string w = u"กากลม";
            for (int b = 0; b < 3; ++b) {
                Match m (w, b, &d);
                for (int k = rnd (4); k > 0 && m.findNext(); --k) m.getData();
            }
            break; }
        case 3: { Parser p (how & 32); use (p, ws, how); break; }
        case 4: { Parser p (dic.c_str(), how & 32); use (p, ws, how); if (how & 4) { p.loadExceptDict (dic2.c_str()); use (p, ws, how); } break; }
        case 5: { Parser p (how & 32); for (int k = rnd (4); k > 0; --k) p.loadExceptDict (dicts[rnd (dicts.size())].c_str()); use (p, ws, how); break; }
        case 6: {
            Parser p (how & 32);
            if (how & 4) p.loadExceptDict (dic.c_str());
            thread a ([&] { use (p, ws, how); }), b ([&] { use (p, ws, how ^ 3); });
            a.join(); b.join();
            break; }
        }
        if (count) ++stat_["uses " + to_string (op)];
    }
}

static size_t inUse () { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }

static int
openFiles ()
{
    int n = 0;
    DIR* d = opendir ("/proc/self/fd");
    if (!d) return -1;
    while (readdir (d)) ++n;
    closedir (d);
    return n;
}

int
main (int argc, char** argv)
{
    if (argc < 4) return 3;
    mallopt (M_ARENA_MAX, 1);
    uint64_t seed = strtoull (argv[1], nullptr, 10);
    dicts.assign (argv + 3, argv + argc);
    for (string l; getline (cin, l); ) words.push_back (l);
    if (words.empty()) return 3;
    const int ROUND = 6;
    // the measure itself must work
    {
        size_t a = inUse();
        vector<char*> v;
        for (int i = 0; i < 100; ++i) v.push_back ((char*) malloc (40));
        size_t b = inUse();
        for (auto p : v) free (p);
        if (b < a + 4000) { cerr << "memory in use cannot be measured" << endl; return 5; }
    }
    unsigned long nViol = 0;
    set<size_t> shapes;
    for (int c = atoi (argv[2]); c > 0 && nViol < 5; --c) {
        uint64_t s = seed * 1000003 + c;
        size_t mem[5]; int fds[5];
        for (int r = 0; r < 5; ++r) {
            for (int i = 0; i < ROUND; ++i) cycle (s, r == 0 && i == 0);
            mem[r] = inUse(); fds[r] = openFiles();
        }
        bool leak = true, files = true;
        for (int r = 1; r < 5; ++r) {
            leak = leak && mem[r] >= mem[r - 1] + ROUND * 8;
            files = files && fds[r] >= fds[r - 1] + ROUND;
        }
        if (leak) { ++nViol; cout << "V memory\t" << s << "\tmemory in use grows with every cycle: " << (mem[4] - mem[1]) / (3.0 * ROUND) << " bytes each" << endl; }
        if (files) { ++nViol; cout << "V files\t" << s << "\topen files grow with every cycle: " << fds[1] << " to " << fds[4] << endl; }
        stat_["cycles"] += 5 * ROUND;
        shapes.insert (s);
    }
    for (auto& s : stat_) { string n = s.first; for (auto& ch : n) if (ch == ' ') ch = '-'; cout << "S " << n << ' ' << s.second << '\n'; }
    for (auto h : shapes) cout << "H " << h << '\n';
    cout << "DONE" << endl;
    return 0;
}
