#!/usr/bin/env python3
"""writes DESIGN.md: design.head.md, one section per property (oracle below, bounds from the checks), design.tail.md, the table of planted bugs"""
import importlib, json, os, sys
R = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, R)
# per property: the main functions reached, the oracle, why tests cannot reach it
HOW = {
 'C01': ('Ledger::get_flattened_entries, Entry::get_blank_amount, get_balance_map, display_flat_balance, AmountPool', 'an independent model (sf/model.py) resolves blank amounts and sums the symbolic amounts per account and currency over the rationals; every number token in the report is a term over the input variables and has to equal the model\'s sum for all values'),
 'C02': ('Entry::get_blank_amount, Posting::from_str, Amount arithmetic', 'blank = minus the sum of the others (foreign ones at quantity x unit price or total); refused without native worth'),
 'C03': ('Entry::validate, Entry::from_str', 'accepted on a path only if sum = 0 follows from the path condition, refused only if sum != 0 does'),
 'C04': ('Amount::parse, dec2flt, Posting::from_str, EnvelopePosting::from_str', 'the number of the spelling, as text, against the number in the report; texts without a number have to be refused'),
 'C05': ('Ledger::parse_line, Entry::from_str, Account::from_str, Envelope::from_str, utils', 'a table or a calendar says which of the symbolic texts is well formed; accepted and refused paths are both checked, refusal means stderr only, no file touched although automatic moves are enabled'),
 'C06': ('everything: silverfox, chrono, csv and std code is executed, panics, failed overflow checks and aborts are path ends', 'no path ends in a panic, abort, memory error or more than 60 million instructions'),
 'C07': ('utils::remove_comments, is_separated, Ledger::parse_line, chunk handling in Envelope::from_str', 'two runs in one path: the plain journal and the one with the insertion report the same figures and write the same moves'),
 'C08': ('Envelope::get_next_due_date, Frequency parsing, chrono calendar code', 'a brute-force calendar in Python (first scheduled day > today) tabulated over the symbolic today (and start); the due date shown has to be that entry of the table'),
 'C09': ('Envelope::process_entry, apply_amount, get_last_due_date', 'model of now/next with the calendar\'s last due date, as nested ifs over the symbolic dates and amounts'),
 'C10': ('Account::get_available_value, display_envelopes, AmountPool', 'real balance (model) minus the now and next amounts shown'),
 'C11': ('Envelope::infer_envelope_posting, Entry::as_envelope_amount', 'min of the two absolute totals with the sign of the own account\'s change'),
 'C12': ('Account::get_filling_postings, Envelope::get_filling_amount, Ledger::fill_envelopes, append_entries', 'inequalities between the amounts appended to the journal and the model\'s contents and available amounts before the run'),
 'C13': ('Envelope::get_filling_amount', 'exact amount of every move (aggressive: what is missing; conservative: missing / days), limited by what is available'),
 'C14': ('Envelope::last_transaction_date handling, Ledger::fill_envelopes', 'two or three runs in one path, the later ones see the file the first wrote: no byte added'),
 'C15': ('Ledger::append_entries, file system calls', 'file contents after the run against those before; failing open/read/write calls and the death of the process at a write are symbolic choices of the operating-system model'),
 'C16': ('Display of Entry/Posting/Amount, date formatting and parsing, Ledger::append_entries', 'run 1 writes, runs 2 and 3 read it back; their reports have to be those of the model for journal + moves (or records)'),
 'C17': ('CsvImporter, Rules, csv crate', 'a model of the documented rules (sf/imports.py) gives the expected entries for each record'),
 'C18': ('Rules::apply, Subrules', 'which block applies is a Python function of the symbolic text; entries as in C17'),
 'C19': ('Ledger::display_register, Register, Entry columns', 'sorted order as a formula over symbolic dates, amounts and running totals as sums over the rationals'),
 'C20': ('Ledger::parse with include, directory handling, append', 'the split journal has to report what the model says of the single one; where new entries go, what relative paths mean'),
 'C21': ('Posting::from_str (!), Account::check assertions', 'accepted iff balance after the posting = asserted number, on both kinds of paths'),
 'C22': ('Entry::combine_native, Amount, every report', 'the model with X and blank identified; every combination of spellings is symbolic'),
 'C24': ('Ledger::set_date_format, Entry::parse_header, Entry::as_parsable, Frequency::parse, Envelope::extract_starting, Rules::parse_entry_from_record, chrono parsing and formatting', 'for every index of the symbolic date the text Python\'s strftime gives in the format and the calendar day; what the register shows, what the due date is, what is appended and what the next run makes of it have to match; texts that another format produces have to be refused'),
 'C25': ('Ledger::display_envelopes, Account::display_envelopes, Envelope Display, make_bar', 'the declarations give the set of accounts and envelopes; the length of the filled part is fixed on each path and has to fit amount x width / target by two inequalities over the symbolic amounts'),
 'C26': ('errors.rs, every place that makes an error, main', 'the text of the message with its symbolic stretches filled in has to contain the offending text, for every index of the symbolic choice that reaches the path'),
 'C23': ('flags::CommandFlags, main', 'which file has to be read is a table over the symbolic presence of flags and variables; nothing else is opened for writing'),
}
out = [open(R + '/design.head.md').read().rstrip(), '']
ev = {}
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    m = importlib.import_module('props.' + i.lower())
    q, t = len(m.scenarios('quick')), len(m.scenarios('thorough'))
    c = json.load(open(R + '/cost.json')).get(i, '')
    out += ['### %s %s' % (i, p['title']), '', '- **Code**: %s.' % HOW[i][0], '- **Oracle**: %s.' % HOW[i][1], '- **Bounds**: %d scenarios (%d thorough): %s.' % (q, t, m.BOUNDS), '- **Outside**: %s.' % (getattr(m, 'OUTSIDE', '') or 'larger inputs'),
            '- **Beyond the tests**: %s' % p['why_tests_cant'], '- **Cost**: %s.' % c, '']
out += [open(R + '/design.tail.md').read().rstrip(), '', '| planted bug | property | what it needs | caught by |', '|---|---|---|---|']
caught = json.load(open(R + '/caught.json'))
for b in sorted(os.listdir(R + '/seeded')) if os.path.isdir(R + '/seeded') else []:
    m = json.load(open(R + '/seeded/' + b + '/meta.json'))
    out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), caught.get(b, 'not run')))
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
