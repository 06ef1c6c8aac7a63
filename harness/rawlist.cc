// rawlist.cc - all readings in raw codes, straight from the library.
//   rawlist [--break] [--dict DIC] [--walk] < words
// With --walk the readings are collected here, along all paths of the graph,
// instead of by the listing under test; more than 200000 are not followed.
// prints "word TAB reading TAB reading ..." with syllables joined by \x1f

#include "parser/parser.h"
#include "output/output-json.h"
#include "output/output-delim.h"
#include "output/sylout-raw.h"

#include <iostream>
#include <memory>
#include <string>

using namespace std;

static unsigned long nPaths;

static void
walk (const PronunDAG& d, int node, const string& sofar, string& res)
{
    if (nPaths > 200000) return;
    auto range = d.outEdges (node);
    if (range.first == range.second) {
        ++nPaths;
        res += sofar;
        res += '\n';
        return;
    }
    for (auto it = range.first; it != range.second; ++it)
        walk (d, it->second.target,
              (sofar.empty() ? sofar : sofar + '\x1f') + RawSylOutput().output (it->second.edgeVal), res);
}

int
main (int argc, char** argv)
{
    bool brk = false, byPath = false;
    const char* dic = nullptr;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a == "--break") brk = true;
        else if (a == "--walk") byPath = true;
        else if (a == "--dict") dic = argv[++i];
        else return 3;
    }
    Parser parser (brk);
    if (dic && !parser.loadExceptDict (dic)) return 4;
    DelimOutput out (unique_ptr<ISylOutput> (new RawSylOutput()), '\x1f');
    for (string w; getline (cin, w); ) {
        PronunDAG d = parser.parseWord (w);
        if (byPath) {
            string res;
            nPaths = 0;
            if (d.outDegree (0)) walk (d, 0, "", res);
            cout << w << '\x1e' << res << '\x1d';
            continue;
        }
        cout << w << '\x1e' << out.output (d) << '\x1d';
    }
    cout << "DONE" << endl;
    return 0;
}
