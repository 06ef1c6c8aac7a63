// sylout.cc - renders syllables and readings with the repository's outputs.
//
//   sylout --all       every syllable code of the product, one per line:
//                      code TAB raw TAB roman TAB thai TAB phonetic TAB soundex
//   sylout --strings   readings on stdin, one per line, items separated by
//                      '|': code@pos, "(text)@pos", or a blank " ";
//                      prints raw TAB thai TAB phonetic TAB soundex (delimited)
//                      TAB roman TAB json-raw TAB json-roman TAB capitalized roman
//                      and then the listing of all readings read so far in one
//                      piece under --list

#include "sylstring/sylstring.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-thai.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include "output/output-json.h"

#include <cstdio>
#include <iostream>
#include <memory>
#include <string>

using namespace std;

template<typename T> static unique_ptr<ISylOutput> mk() { return unique_ptr<ISylOutput> (new T()); }

static u16string
u16 (const string& s)
{
    u16string r;
    for (size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i];
        uint32_t v; int n;
        if (c < 0x80) { v = c; n = 1; } else if (c < 0xe0) { v = c & 31; n = 2; }
        else if (c < 0xf0) { v = c & 15; n = 3; } else { v = c & 7; n = 4; }
        for (int k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | (s[i + k] & 63);
        i += n;
        if (v >= 0x10000) { v -= 0x10000; r += (char16_t) (0xd800 + (v >> 10)); r += (char16_t) (0xdc00 + (v & 0x3ff)); }
        else r += (char16_t) v;
    }
    return r;
}

int
main (int argc, char** argv)
{
    string mode = argc > 1 ? argv[1] : "";
    RawSylOutput raw; RomanSylOutput rom; ThaiSylOutput tha; PhoneticSylOutput pho; SoundexSylOutput sdx;
    if (mode == "--all") {
        for (char a : string ("kcgjJydtTnbpPfmrlwsh?"))
            for (char b : string ("_rlw"))
                for (char c : string ("aAiIvVuUeExXyYzZtToOcCwW"))
                    for (char d : string ("_ktpgnmyw"))
                        for (char e : string ("01234")) {
                            string code { a, b, c, d, e };
                            Syl s (code, 7);
                            cout << code << '\t' << raw.output (s) << '\t' << rom.output (s) << '\t' << tha.output (s)
                                 << '\t' << pho.output (s) << '\t' << sdx.output (s) << '\n';
                        }
        cout << "DONE" << endl;
        return 0;
    }
    if (mode != "--strings") return 3;
    DelimOutput dw (mk<RawSylOutput>(), ','), dt (mk<ThaiSylOutput>(), '-'), dp (mk<PhoneticSylOutput>(), ' '),
                ds (mk<SoundexSylOutput>(), '-');
    RomanOutput ro, rc (true);
    JsonOutput jw (mk<RawSylOutput>()), jr (mk<RomanSylOutput>());
    list<SylString> all;
    string l;
    while (getline (cin, l)) {
        SylString s;
        size_t b = 0;
        while (!l.empty()) {
            size_t e = l.find ('|', b);
            string item = l.substr (b, e == string::npos ? e : e - b);
            if (item == " ") s += Syl::Blank;
            else if (item[0] == '(') {
                size_t at = item.rfind ('@');
                s += Syl (stoi (item.substr (at + 1)), u16 (item.substr (1, at - 2)));
            } else s += Syl (item);
            if (e == string::npos) break;
            b = e + 1;
        }
        all.push_back (s);
        cout << dw.output (s) << '\t' << dt.output (s) << '\t' << dp.output (s) << '\t' << ds.output (s) << '\t'
             << ro.output (s) << '\t' << jw.output (s) << '\t' << jr.output (s) << '\t' << rc.output (s) << '\n';
    }
    cout << "LIST-RAW\n" << dw.output (all) << "LIST-ROMAN\n" << ro.output (all) << "LIST-JSON\n" << jw.output (all) << "\nDONE" << endl;
    return 0;
}
