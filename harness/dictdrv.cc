// dictdrv.cc - dictionary lookups and fault sequences.
//
//   dictdrv --lookup DIC          texts on stdin; prints "text TAB pos=data ..."
//                                 for every match found from the start
//   dictdrv --dump DIC            prints every key TAB data
//   dictdrv --cuts DIC DIR SEED STEP   loads every truncation of DIC (each STEP-th
//                                 byte, all near the ends of its parts) and
//                                 foreign files, judging parses after each
// Output of --cuts: V/S/DONE lines.

#include "dict/dict.h"
#include "parser/parser.h"
#include "output/sylout-raw.h"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

using namespace std;

static u16string
u16 (const string& s)
{
    u16string r;
    for (size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i];
        uint32_t v; int n;
        if (c < 0x80) { v = c; n = 1; } else if (c < 0xe0) { v = c & 31; n = 2; }
        else if (c < 0xf0) { v = c & 15; n = 3; } else { v = c & 7; n = 4; }
        for (int k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | (s[i + k] & 63);
        i += n;
        if (v >= 0x10000) { v -= 0x10000; r += (char16_t) (0xd800 + (v >> 10)); r += (char16_t) (0xdc00 + (v & 0x3ff)); }
        else r += (char16_t) v;
    }
    return r;
}

static string
u8 (uint32_t c)
{
    string r;
    if (c < 0x80) r += (char) c;
    else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
    else { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
    return r;
}

static Bool
dumpEntry (const AlphaChar* key, TrieData data, void* d)
{
    for (; *key; ++key) cout << u8 (*key);
    cout << '\t' << static_cast<const Dict*> (d)->getData (data) << '\n';
    return TRUE;
}

static string
print (const Parser& p, const string& w)
{
    static RawSylOutput raw;
    PronunDAG d = p.parseWord (w);
    multiset<string> e;
    for (auto it = d.outBegin(); it != d.outEnd(); ++it)
        e.insert (to_string (it->first) + ">" + to_string (it->second.target) + raw.output (it->second.edgeVal));
    string r;
    for (auto& x : e) r += x + ";";
    return r;
}

static unsigned long nViol;
static map<string, unsigned long> stat_;
static set<string> outcomes;

static void
viol (const string& kind, const string& w, const string& d)
{
    if (nViol++ < 10) cout << "V " << kind << '\t' << w << '\t' << d << endl;
}

int
main (int argc, char** argv)
{
    if (argc < 3) return 3;
    string mode = argv[1], dic = argv[2];
    if (mode == "--lookup" || mode == "--dump") {
        Dict d;
        if (!d.open (dic.c_str())) { cout << "NOLOAD" << endl; return 0; }
        if (mode == "--dump") {
            if (d.trie()) trie_enumerate (d.trie(), dumpEntry, &d);
        } else {
            string l;
            while (getline (cin, l)) {
                u16string w = u16 (l);
                cout << l;
                Match m (w, 0, &d);
                while (m.findNext()) cout << '\t' << m.getCurPos() << '=' << m.getData();
                cout << '\n';
            }
        }
        cout << "DONE" << endl;
        return 0;
    }
    if (mode != "--cuts" || argc < 6) return 3;
    string dir = argv[3];
    unsigned long seed = strtoul (argv[4], nullptr, 10), step = strtoul (argv[5], nullptr, 10);
    ifstream f (dic, ios::binary);
    string all ((istreambuf_iterator<char> (f)), istreambuf_iterator<char>());
    vector<string> words;
    for (string l; getline (cin, l); ) if (!l.empty()) words.push_back (l);
    if (all.size() < 16 || words.empty()) return 3;

    map<bool, vector<string>> want;        // without, with dictionary
    {
        Parser p (false);
        for (auto& w : words) want[false].push_back (print (p, w));
        if (!p.loadExceptDict (dic.c_str())) { viol ("good-refused", "complete file", "complete dictionary refused"); }
        for (auto& w : words) want[true].push_back (print (p, w));
    }
    if (want[false] == want[true] && !nViol) return 3;
    string path = dir + "/cut.dic";
    auto put = [&] (const string& bytes) { ofstream o (path, ios::binary | ios::trunc); o << bytes; };
    auto judge = [&] (const Parser& p, bool has, const string& what) {
        for (size_t i = 0; i < words.size(); ++i)
            if (print (p, words[i]) != want[has][i]) {
                viol (has ? "dictionary-lost" : "side-effect", what, "reading of " + words[i] + " differs");
                return;
            }
        ++stat_["parsers-judged"];
    };
    auto refuse = [&] (const string& bytes, const string& what, int variant) {
        put (bytes);
        Parser p (false);
        if (variant == 1) p.loadExceptDict (dic.c_str());          // good, then bad
        bool ok = p.loadExceptDict (path.c_str());
        ++stat_["bad-files"];
        if (ok) viol ("accepted", what, "load reported success");
        if (variant == 0) judge (p, false, what);
        else for (auto& w : words) print (p, w);                      // must not crash
        if (variant == 2) {                                           // bad twice
            if (p.loadExceptDict (path.c_str())) viol ("accepted", what, "second load reported success");
            judge (p, false, what + " twice");
        }
        // a later complete file is taken
        if (!p.loadExceptDict (dic.c_str())) viol ("good-refused", what, "complete dictionary refused afterwards");
        else judge (p, true, what + " then complete");
        outcomes.insert (what.substr (0, what.find (' ')) + (ok ? "+" : "-"));
    };
    unsigned long n = 0;
    for (size_t len = 0; len < all.size(); ++len) {
        bool edge = len < 64 || len + 64 > all.size();
        if (!edge && (len + seed) % step) continue;
        refuse (all.substr (0, len), "cut at " + to_string (len), n++ % 3);
    }
    stat_["cuts"] = n;
    stat_["file-size"] = all.size();
    // foreign files
    refuse ("", "empty file", 0);
    refuse (string (4096, '\0'), "zeros", 0);
    refuse (string (4096, '\xff'), "ones", 2);
    string txt;
    for (int i = 0; i < 200; ++i) txt += "not a dictionary\n";
    refuse (txt, "text", 1);
    uint64_t x = seed * 2654435761u + 1;
    for (int k = 0; k < 50; ++k) {
        string b;
        for (int i = 0; i < 300; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; b += (char) (x >> 56); }
        refuse (b, "random bytes " + to_string (k), k % 3);
    }
    {
        Parser p (false);
        if (p.loadExceptDict ((dir + "/missing/nothing.dic").c_str())) viol ("accepted", "missing", "load of a missing file succeeded");
        judge (p, false, "missing");
        if (p.loadExceptDict (dir.c_str())) viol ("accepted", "directory", "load of a directory succeeded");
        judge (p, false, "directory");
        if (p.loadExceptDict ("")) viol ("accepted", "empty path", "load of an empty path succeeded");
        judge (p, false, "empty path");
        stat_["bad-files"] += 3;
        if (!p.loadExceptDict (dic.c_str())) viol ("good-refused", "after missing", "complete dictionary refused afterwards");
        else judge (p, true, "after missing");
        // complete, again complete
        if (!p.loadExceptDict (dic.c_str())) viol ("good-refused", "reload", "complete dictionary refused on reload");
        else judge (p, true, "reload");
    }
    unlink (path.c_str());
    for (auto& s : stat_) cout << "S " << s.first << ' ' << s.second << '\n';
    for (auto& o : outcomes) cout << "H " << o << '\n';
    cout << "DONE" << endl;
    return 0;
}
