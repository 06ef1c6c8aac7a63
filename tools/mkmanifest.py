#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('ASan+UBSan+debug containers under enumerated, random and broken byte input', 'All strings of up to 2 (quick) / 3 (thorough) characters over 68 through the sanitized parser, fuzzed byte strings through the sanitized program with all options; the answer stream is judged too.'),
 'C02': ('online path monitor on the pronunciation graph', 'Every edge of every graph judged; all strings up to 3 characters over 68, 4 over a small alphabet, plus long generated texts, with and without segmentation and dictionary.'),
 'C03': ('reference-model monitor comparing whole graphs', 'All Thai strings up to 4 letters enumerated, longer ones generated; every spelling rule of the model must be hit.'),
 'C04': ('reference-model monitor of tones', 'All consonants and clusters x vowel shapes x tone marks x finals; tones compared where the syllable structure agrees.'),
 'C05': ('reference-model monitor with random dictionaries', 'Random prefix-related dictionaries and texts dense in entries; differences also present without the dictionary are attributed elsewhere.'),
 'C06': ('reference-model monitor against the word breaker', 'Texts of real words with the system breaker as oracle for breaks; control text without segmentation separates causes.'),
 'C07': ('independent notation model, exhaustive', 'All 90,720 syllables in five notations, injectivity of two, and agreement of notations over all readings of generated words.'),
 'C08': ('JSON decoding against the plain list', 'Program output decoded by an independent JSON parser and compared reading by reading.'),
 'C09': ('expansion of grouped JSON against the flat list', 'Program output and randomly built graphs; expansion computed independently.'),
 'C10': ('sanitized compiler with read-back monitor and injected I/O faults', 'Random lists read back by enumeration and lookup; malformed lines at random places; output cut by file size limit at many byte counts.'),
 'C11': ('truncation faults at every byte, sanitized loader', 'Every byte offset of several dictionaries (quick may sample offsets of large ones), foreign files, load sequences.'),
 'C12': ('model-based operation histories', 'Random and exhaustively short histories of graph edits against a set of triples, both views and all return values.'),
 'C13': ('exhaustive pair and triple checks of order laws', 'Pairs and triples of syllables and readings, permutations of insertions.'),
 'C14': ('ThreadSanitizer plus differential histories', 'Threads share one parser under the race detector; answers compared with lone answers; sessions of the program compared with lone runs.'),
 'C15': ('command-line model', 'Exhaustive notation sequences up to 3 (sampled at 3 in quick), random interleavings of options and words, both channels, all ending options.'),
 'C16': ('deterministic step and heap counters', 'Executed control-flow edges and peak heap bytes for texts doubled up to 40 repeats, with bounds well above the measured quadratic growth.'),
 'C17': ('reference-model monitor on abbreviations and plain text', 'All arrangements up to 6 characters over a small alphabet, all characters of the basic plane between words, generated texts.'),
 'C18': ('metamorphic product relation', 'Model-free: the graph of a joined text against the graphs of its parts.'),
 'C19': ('differential builds and environments, memcheck', 'Six builds and sixteen environments compared byte for byte; memcheck on a sample.'),
 'C20': ('validation of entries and read-back in context', 'All shipped entries x 11 contexts x 5 notations, sanitized.'),
 'C21': ('reference-model monitor with control texts', 'Syllable shapes x silenced groups x positions; a difference counts only if the text without the group agrees.'),
 'C22': ('listing monitor and delimiter model', 'Every line of every listing rebuilt from raw readings; counts against the number of graph paths.'),
 'C23': ('interactive sessions with heap watch', 'Line-by-line pipe sessions, live heap level over long sessions by an allocation shim.'),
 'C25': ('printed readings compiled into dictionaries and read back', 'Sampled words and contexts.'),
 'C26': ('differential builds, environments and places of the compiler, memcheck', 'Random, shipped, large and malformed lists compiled by six builds and in a dozen settings, compared byte for byte.'),
 'C27': ('injected failures of every file and memory call', 'Every read, write, flush, close and own memory request of several compilations, every read of a dictionary, each failing in turn; pieces of random size through pipes and a terminal. Memory requests made inside libdatrie are outside the repository and never fail here.'),
 'C28': ('sanitized model-based histories of value operations', 'Random histories over a pool of objects against plain lists, with self-assignment and aliasing, under ASan, UBSan and debug containers.'),
 'C29': ('ThreadSanitizer and differential printing', 'Shared formatters in several threads under the race detector, random print orders, printed graph against printed readings.'),
 'C30': ('file system and process snapshots around runs', 'Snapshots of a watched world before and after each run, all files asked for by an interposed library, orphaned processes.'),
 'C31': ('heap and descriptor levels between rounds of repeated work', 'Random sequences of uses repeated 30 times; a leak is growth in each of four rounds after the first. Memory is the allocator count of bytes in use.'),
 'C32': ('sanitized runs with garbled dictionaries and differential dictionaries', 'Random garbled, truncated and contradicting pronunciations compiled into dictionaries; answers compared with dictionaries without them.'),
 'C33': ('injected write and read failures', 'Output that takes only so many bytes (first, middle, last and random places), full device, closed output, input that breaks off with an error at chosen places or cannot be read.'),
 'C34': ('differential runs with marked dictionaries', 'Installed and requested dictionaries in all states and spellings of their place, told apart by their entries; decoys in the working directory.'),
 'C35': ('enumerated kill points and file-size limits, judged by use of what is left', 'The compiler killed at every system call (entry and return), ended or failing at chosen file sizes, and giving up at wrong lines, over first and repeated compilations; the file left is loaded and asked.'),
 'C24': ('respelling read back by the parser', 'All single-initial syllables that Thai script can write.'),
}
HEAVY = {}
m = {'version': 1, 'setup_cmd': 'sh setup.sh',
     'checks': [{'property': p, 'quick_cmd': 'python3 checks/run.py ' + p, 'thorough_cmd': 'python3 checks/run.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': t,
                 'level': 'fault_enumeration' if p in ('C11', 'C27', 'C33', 'C35') else 'exploration', 'level_note': n} for p, (t, n) in sorted(T.items())],
     'not_applicable': [],
     'notes': 'Checks build /repo sources into /verif/.build (cached by content hash). No hooks in /repo are needed. '
              'Tier and seed come from VERIF_TIER and VERIF_SEED. A violation writes its witness under /verif/replay.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
