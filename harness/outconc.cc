// outconc.cc - formatters and graphs shared by threads; the forms in which a
// formatter takes readings (C29).
//
//   outconc THREADS ROUNDS SEED [DIC] < words
// Threads print the same graphs through the same formatters, nothing having
// been printed before; then fresh formatters print everything alone.
// Output: "V kind TAB witness TAB detail", "S name count", "DONE".

#include "parser/parser.h"
#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "maybe.h"

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <list>
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace std;

static unsigned long nViol;

static void
viol (const string& kind, const string& w, const string& d)
{
    if (nViol++ < 10) cout << "V " << kind << '\t' << w << '\t' << d << endl;
}

static unique_ptr<ISylOutput>
notation (int k)
{
    switch (k) {
    case 0:  return unique_ptr<ISylOutput> (new RawSylOutput());
    case 1:  return unique_ptr<ISylOutput> (new ThaiSylOutput());
    case 2:  return unique_ptr<ISylOutput> (new PhoneticSylOutput());
    case 3:  return unique_ptr<ISylOutput> (new SoundexSylOutput());
    default: return unique_ptr<ISylOutput> (new RomanSylOutput());
    }
}

static const int N = 16;

static unique_ptr<IOutput>
formatter (int k)
{
    static const char delim[] = { ',', '-', ' ', '-' };
    if (k < 4)   return unique_ptr<IOutput> (new DelimOutput (notation (k), delim[k]));
    if (k < 6)   return doMake<IOutput, RomanOutput> (k == 5, is_constructible<RomanOutput, bool>());
    if (k < 11)  return unique_ptr<IOutput> (new JsonOutput (notation (k - 6)));
    return unique_ptr<IOutput> (new GroupedJsonOutput (notation (k - 11)));
}

static void
paths (const PronunDAG& d, int node, SylString cur, list<SylString>& out)
{
    auto e = d.outEdges (node);
    if (e.first == e.second || out.size() > 400) {
        if (cur.begin() != cur.end()) out.push_back (cur);
        return;
    }
    for (auto it = e.first; it != e.second; ++it) {
        SylString next (cur);
        next += it->second.edgeVal;
        paths (d, it->second.target, next, out);
    }
}

static size_t
mix (size_t i, size_t n, size_t t, size_t seed) { return (i * 2654435761u + t * 40503u + seed) % n; }

int
main (int argc, char** argv)
{
    if (argc < 4) return 3;
    int nThreads = atoi (argv[1]), rounds = atoi (argv[2]);
    uint64_t seed = strtoull (argv[3], nullptr, 10);
    Parser parser (false);
    if (argc > 4 && !parser.loadExceptDict (argv[4])) return 4;
    vector<string> words;
    vector<PronunDAG> graphs;
    vector<list<SylString>> readings;
    for (string l; getline (cin, l); ) {
        PronunDAG d = parser.parseWord (l);
        list<SylString> r;
        paths (d, 0, SylString(), r);
        if (r.size() > 300) continue;
        words.push_back (l);
        graphs.push_back (d);
        readings.push_back (r);
    }
    if (words.empty()) return 3;
    vector<unique_ptr<IOutput>> shared;
    for (int k = 0; k < N; ++k) shared.push_back (formatter (k));

    size_t total = words.size() * N;
    vector<vector<string>> got (nThreads, vector<string> (total));
    vector<vector<char>> seen (nThreads, vector<char> (total));
    atomic<int> ready { 0 };
    atomic<unsigned long> prints { 0 }, changed { 0 };
    vector<thread> ts;
    for (int t = 0; t < nThreads; ++t)
        ts.emplace_back ([&, t] {
            ++ready;
            while (ready < nThreads) { }
            for (int r = 0; r < rounds; ++r)
                for (size_t i = 0; i < total; ++i) {
                    // the first prints of all threads are the same ones
                    size_t x = i < 64 ? mix (i, total, 0, seed) : mix (i, total, t + r, seed);
                    string s = shared[x % N]->output (graphs[x / N]);
                    if (seen[t][x] && got[t][x] != s) ++changed;
                    seen[t][x] = 1;
                    got[t][x] = s;
                    ++prints;
                }
        });
    for (auto& t : ts) t.join();
    if (changed) viol ("changed", "shared formatter", to_string (changed) + " outputs changed between rounds");

    unsigned long forms = 0;
    for (size_t i = 0; i < words.size(); ++i) {
        PronunDAG fresh = parser.parseWord (words[i]);
        for (int k = 0; k < N; ++k) {
            size_t x = i * N + k;
            string alone = formatter (k)->output (fresh);
            string id = words[i] + " formatter " + to_string (k);
            for (int t = 0; t < nThreads; ++t)
                if (seen[t][x] && got[t][x] != alone) { viol ("concurrent", id, "output differs from a lone one"); break; }
            if (shared[k]->output (graphs[i]) != alone) viol ("history", id, "output depends on what was printed before");
            if (k >= 11) continue;
            // graph, list of readings and single readings
            string list_ = shared[k]->output (readings[i]), built = k < 6 ? "" : "[";
            for (auto& r : readings[i]) {
                if (k < 6) built += shared[k]->output (r) + "\n";
                else built += (built.size() > 1 ? "," : "") + shared[k]->output (r);
            }
            if (k >= 6) built += "]";
            if (list_ != alone) viol ("forms", id, "a graph is printed differently from the list of its readings");
            if (built != list_) viol ("forms", id, "a list is printed differently from its readings");
            ++forms;
        }
    }
    cout << "S prints " << prints << "\nS forms " << forms << "\nS words " << words.size() << "\nDONE" << endl;
    return 0;
}
