// conc.cc - readers sharing one parser.
//
//   conc THREADS ROUNDS SEED [DIC] < words
// Sequential answers come from fresh parsers; then THREADS threads read all
// words, each in its own order, through one shared parser.
// Also the sequential histories: order, repetition, after-effects.

#include "parser/parser.h"
#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/sylout-raw.h"
#include "output/sylout-thai.h"

#include <atomic>
#include <iostream>
#include <memory>
#include <string>
#include <thread>
#include <vector>

using namespace std;

static string
print (const Parser& p, const string& w, const IOutput& a, const IOutput& b)
{
    PronunDAG d = p.parseWord (w);
    return a.output (d) + b.output (d);
}

static unsigned long nViol;

static void
viol (const string& kind, const string& w, const string& d)
{
    if (nViol++ < 10) cout << "V " << kind << '\t' << w << '\t' << d << endl;
}

int
main (int argc, char** argv)
{
    if (argc < 4) return 3;
    int nThreads = atoi (argv[1]), rounds = atoi (argv[2]);
    uint64_t seed = strtoull (argv[3], nullptr, 10);
    const char* dic = argc > 4 ? argv[4] : nullptr;
    vector<string> words;
    for (string l; getline (cin, l); ) words.push_back (l);
    if (words.empty()) return 3;
    DelimOutput oa (unique_ptr<ISylOutput> (new ThaiSylOutput()), '-');
    GroupedJsonOutput ob (unique_ptr<ISylOutput> (new RawSylOutput()));

    Parser shared (false);
    if (dic && !shared.loadExceptDict (dic)) return 4;

    // threads first: nothing has been initialised by an earlier reading
    vector<vector<string>> got (nThreads, vector<string> (words.size()));
    atomic<int> ready { 0 };
    atomic<unsigned long> reads { 0 }, changed { 0 };
    vector<thread> ts;
    for (int t = 0; t < nThreads; ++t)
        ts.emplace_back ([&, t] {
            ++ready;
            while (ready < nThreads) { }
            size_t n = words.size(), stride = 1 + (seed + t * 7919) % n;
            while (n > 1) { size_t a = n, b = stride; while (b) { size_t r = a % b; a = b; b = r; } if (a == 1) break; ++stride; }
            for (int r = 0; r < rounds; ++r)
                for (size_t k = 0, i = t % n; k < n; ++k, i = (i + stride) % n) {
                    string s = print (shared, words[i], oa, ob);
                    if (r == 0) got[t][i] = s;
                    else if (got[t][i] != s) ++changed;
                    ++reads;
                }
        });
    for (auto& t : ts) t.join();
    if (changed) viol ("changed", "shared parser", to_string (changed) + " answers changed between rounds");

    // fresh parser per word
    vector<string> alone;
    for (auto& w : words) {
        Parser p (false);
        if (dic && !p.loadExceptDict (dic)) return 4;
        alone.push_back (print (p, w, oa, ob));
    }
    for (int t = 0; t < nThreads; ++t)
        for (size_t i = 0; i < words.size(); ++i)
            if (got[t][i] != alone[i]) viol ("concurrent", words[i], "answer differs from a lone reading");

    // histories on one parser, with and without segmentation
    unsigned long seq = 0;
    for (int brk = 0; brk < 2; ++brk) {
        vector<string> ref;
        for (auto& w : words) {
            Parser p (brk);
            if (dic && !p.loadExceptDict (dic)) return 4;
            ref.push_back (print (p, w, oa, ob));
            if (ref.size() >= 150 && brk) break;          // opening the breaker is slow
        }
        Parser p (brk);
        if (dic && !p.loadExceptDict (dic)) return 4;
        for (int pass = 0; pass < 3; ++pass)
            for (size_t k = 0; k < ref.size(); ++k) {
                size_t i = pass == 0 ? k : pass == 1 ? ref.size() - 1 - k : (seed + k * k) % ref.size();
                for (int again = 0; again < 2; ++again, ++seq)
                    if (print (p, words[i], oa, ob) != ref[i])
                        viol (brk ? "history-segmented" : "history", words[i], "answer depends on what was read before");
            }
    }
    cout << "S thread-reads " << reads << "\nS sequence-reads " << seq << "\nS words " << words.size() << "\nDONE" << endl;
    return 0;
}
