#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = 'md_toc/api.py'
AI = 'abstract interpretation of the source (string-pattern, interval and heap domains)'
NOTE = ('Exact abstract states over families of inputs: every member of each listed family is covered, families are bounded in shape '
        '(see evidence: cases and samples); no solver and no execution of the code.')
FAM = 'for the CommonMark based parsers (github, commonmarker, cmark, gitlab, goldmark)'

P = []


def p(id, title, statement, over, text, tests, files, mech, technique=AI, note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note))


p('C01', 'A line is a heading exactly when the CommonMark ATX rules say so',
  'For the CommonMark based parsers a line is a heading exactly when it starts with at most three spaces, then one to six hashes, then a space (or a tab, except for github and commonmarker) or the end of the line. '
  'The heading level is the number of those hashes, and any other line (more indentation, seven or more hashes, an escaped hash, no separator) is not a heading.',
  ['inputs', 'configurations'], 'every line, every parser of the family, with and without links',
  'The tests try a few dozen literal lines; the rule quantifies over all prefixes, hash counts and following characters.',
  [API], [('get_atx_heading', API), ('get_md_header', API)])
p('C02', 'Heading text is the line without hashes, outer blanks and closing run',
  'For the CommonMark based parsers the text of a heading is what follows the opening hashes, without surrounding blanks and without a closing run of hashes. '
  'A closing run counts only when it is preceded by a blank and followed by blanks only; inner hashes, blanks and escaped characters of the text are kept as they are.',
  ['inputs', 'configurations'], 'every heading line: every text, every closing sequence, every amount of blanks',
  'Literal examples of the specification only; closing runs, blanks and texts of other lengths or mixes are not sampled.',
  [API], [('get_atx_heading', API)])
p('C03', 'Redcarpet headings start at the first column with one to six hashes',
  'For redcarpet a line is a heading exactly when it starts with one to six hashes followed by a space and some text (seven hashes and more, indentation or a missing space make it ordinary text). '
  'Its text is the rest of the line without leading spaces, trailing hashes and trailing spaces; a line whose text is empty is not a heading.',
  ['inputs'], 'every line given to the redcarpet parser',
  'A handful of literal lines are tested.',
  [API], [('get_atx_heading', API)])
p('C04', 'Only headings up to the chosen level appear',
  'Headings whose level is greater than the maximum level asked for never appear in the table of contents, and all others do, whatever headings come before or after. '
  'Left out headings still count when the anchors of duplicate headings are numbered. A maximum level below one is refused.',
  ['inputs', 'configurations'], 'every maximum level, every sequence of heading levels, every parser',
  'Tests fix one or two maximum levels on short documents.',
  [API], [('get_md_header', API), ('build_toc', API)])
p('C05', 'Link labels are always well formed',
  'For the CommonMark based parsers, with links enabled, every square bracket of a heading is escaped in the label unless it already was, and a label never ends in a backslash that would escape the closing bracket (for redcarpet neither). '
  'A heading whose label would be blank or longer than 999 characters is refused with the documented error; with links disabled the text is shown unchanged and nothing is refused.',
  ['inputs', 'configurations'], 'every heading text, with any number of brackets and backslashes in any arrangement and of any length',
  'Tests use a few literal labels and two lengths.',
  [API], [('get_atx_heading', API)])
p('C06', 'Opening code fences are recognised by the CommonMark rules',
  'For the CommonMark based parsers a line opens a fenced code block exactly when, after at most three spaces, it starts with at least three backticks or at least three tildes, and, for backticks, has no backtick in the rest of the line. '
  'The fence reported is the whole run of fence characters; redcarpet has no fences.',
  ['inputs', 'configurations'], 'every line and parser: fence lengths, indentation, info strings',
  'Literal examples of the specification only.',
  [API], [('is_opening_code_fence', API), ('is_valid_code_fence_indent', API)])
p('C07', 'A fence is closed only by a matching fence or the end of the document',
  'An open code fence is closed exactly by a line with at most three spaces of indentation that consists of the same fence character, at least as many times as the opening one, followed by blanks only, or by the end of the document. '
  'Shorter runs, other characters or trailing text never close it.',
  ['inputs', 'histories'], 'every pair of opening fence and later line, every parser of the CommonMark family',
  'Literal examples only; the relation between the two lengths is not covered.',
  [API], [('is_closing_code_fence', API)])
p('C08', 'Fenced code never contributes entries',
  'Lines inside a fenced code block (the fences included, and up to the end of the document when it is never closed) never contribute an entry to the table of contents, and every heading outside of them does. '
  'This holds for any sequence of fences of either kind, whether the document comes from a file or from standard input and whether or not its last line ends in a newline.',
  ['inputs', 'histories', 'configurations'], 'every document as a sequence of heading, fence and text lines',
  'Tests contain a few documents with one or two fences.',
  [API], [('build_toc', API), ('is_opening_code_fence', API), ('is_closing_code_fence', API)])
p('C09', 'Incoherent heading hierarchies are refused, coherent ones never are',
  'Unless the check or the indentation is switched off, a document whose visible headings ever go above the level of the first one, or more than one level deeper than the previous one, is refused with the documented error, and no other document is refused for this reason. '
  'With the check or the indentation switched off such a document is accepted.',
  ['inputs', 'histories', 'configurations'], 'every sequence of heading levels, every parser, every combination of the two options',
  'Only a few level sequences are tested out of all sequences of any length.',
  [API], [('build_toc', API)])
p('C10', 'Indentation nests every entry under its parent',
  'Every entry is indented so that it renders as a child of the nearest previous entry of smaller level: for the CommonMark based parsers by the width of the parent\'s list marker (including the digits of its number) plus one beyond the parent, and at the same column as its siblings; for redcarpet by four spaces per level. '
  'With indentation switched off every entry starts at the first column.',
  ['inputs', 'histories', 'configurations'], 'every sequence of levels, every list marker, every number of digits, every parser',
  'Tests cover short sequences with one-digit numbers.',
  [API], [('compute_toc_line_indentation_spaces', API), ('build_toc_line', API), ('build_toc', API)])
p('C11', 'Ordered lists count from one in every sublist',
  'In ordered mode the entries of each list are numbered 1, 2, 3 and so on, restarting in every new sublist and going on where it left off when returning to an outer list; in constant mode every entry has the number 1. '
  'For the CommonMark based parsers a number that would exceed nine digits is refused with the documented error.',
  ['inputs', 'histories', 'configurations'], 'every sequence of levels and every count up to the limit',
  'Tests cover a few short sequences and one overflow.',
  [API], [('increase_index_ordered_list', API), ('build_toc', API)])
p('C12', 'One entry per heading, in document order, in the documented form',
  'The table of contents contains exactly one line per visible heading, in document order, each ending in the chosen newline string and nothing else in between. '
  'A line is its indentation, the list marker (or the number and its closing sign), one space, and the text, or the label in square brackets followed by the anchor as (#anchor) when links are enabled.',
  ['inputs', 'histories', 'configurations'], 'every document and every combination of list options and parsers',
  'Tests check a few fixed documents with a few option sets.',
  [API], [('build_toc', API), ('build_toc_line_without_indentation', API), ('build_toc_line', API)])
p('C13', 'Anchors of plain headings follow the slug rule',
  'For the CommonMark based parsers the anchor of a heading without inline markup is its text in lower case, without the characters that are not letters, digits, underscores, hyphens or spaces, and with every space turned into a hyphen. '
  'For gitlab runs of hyphens are collapsed to one. The rule applies to any Unicode text.',
  ['inputs', 'configurations'], 'every heading text without inline markup, every parser of the family',
  'A few literal headings, mostly ASCII.',
  [API], [('build_anchor_link', API), ('anchor_link_punctuation_filter', API)])
p('C14', 'Repeated anchors of one document are numbered apart',
  'For the CommonMark based parsers the first heading with a given anchor keeps it and the n-th repetition gets the suffix -n, however the headings differ in case or punctuation, whatever other headings come in between and whatever their levels. '
  'Numbering starts afresh with every document.',
  ['inputs', 'histories'], 'every sequence of headings, every number of repetitions',
  'Tests repeat one or two headings a couple of times.',
  [API], [('build_anchor_link', API), ('build_toc', API)])
p('C15', 'Redcarpet anchors follow its own slug rule',
  'For redcarpet the anchor is made of the maximal runs of kept characters (ASCII, not among the stripped punctuation), in lower case, joined by single hyphens, without hyphens at either end; duplicates are not numbered. '
  'When nothing is left the anchor is "part-" followed by the hexadecimal hash of the text.',
  ['inputs'], 'every heading text without tags and entities',
  'A few literal headings.',
  [API], [('build_anchor_link', API)])
p('C16', 'Skipping lines equals removing them from the document',
  'Building a table of contents with n lines to skip gives exactly the table of the document without its first n lines, whatever these contain (headings, fences), for any n up to and beyond the length of the document, from a file as from standard input. '
  'A negative number is refused.',
  ['inputs', 'configurations'], 'every document and every number of lines to skip',
  'One or two skip counts are tested.',
  [API], [('build_toc', API)])
p('C17', 'Writing in place replaces the old table and nothing else',
  'Writing in place replaces the first marker, or the table between the first pair of markers that encloses a list or nothing, by marker, blank line, table, blank line, marker; every other line of the file is kept in order, and line ends become the chosen newline string. '
  'Text between two markers that is not a list is never deleted, and no other file is left behind.',
  ['inputs', 'histories', 'configurations'], 'every file content with any number of markers, any old and new table, every newline convention',
  'Tests use a few fixed files.',
  [API, 'md_toc/generic.py'], [('write_string_on_file_between_markers', API), ('_get_existing_toc', 'md_toc/generic.py')])
p('C18', 'Files without a marker, and files only read, are left untouched',
  'A file that contains no marker line is left byte for byte as it was and never opened for writing by an in-place run, and building or comparing tables of contents never modifies any file. '
  'Writing to standard input is refused before anything is opened.',
  ['inputs', 'configurations'], 'every file content without marker line; every call that only reads',
  'Tests check one file without markers and do not look for side effects.',
  [API, 'md_toc/generic.py'], [('write_string_on_file_between_markers', API), ('tocs_equal', API), ('build_toc', API)],
  technique=AI + '; call-graph effect analysis')
p('C19', 'Writing in place twice is the same as writing once',
  'After a table has been written in place, writing the same table again leaves the file unchanged and reports it as equal, and comparing reports it as equal. '
  'Building the table of the written file gives the same table again, so repeated runs are stable.',
  ['inputs', 'histories'], 'every file content, marker arrangement, table and newline string',
  'No test runs the program twice on varied files.',
  [API, 'md_toc/generic.py'], [('write_string_on_file_between_markers', API), ('tocs_equal', API), ('build_toc', API)])
p('C20', 'The comparison verdict is exact',
  'Comparing a table with a file, or writing it in place, reports equality exactly when the table already between the markers is the new one, ignoring only blanks around the table and the newline convention. '
  'With a single marker the old table is the marker itself, and without marker or without list it is empty.',
  ['inputs', 'configurations'], 'every old and new table, every marker arrangement and newline convention',
  'Tests compare a few literal pairs.',
  [API, 'md_toc/generic.py'], [('tocs_equal', API), ('write_string_on_file_between_markers', API), ('_get_existing_toc', 'md_toc/generic.py')])
p('C21', 'Every command line option has its documented effect',
  'The command line prints (or, in place, writes) exactly the table that the library builds with the corresponding settings, for every markdown parser name including aliases and every option in its short and long form, alone and combined. '
  'Without options the settings are an unordered list with hyphens, six levels, links and indentation; without the in-place option no file is modified.',
  ['configurations', 'inputs'], 'every option, spelling and parser name; combinations',
  'The tests do not run the command line.',
  ['md_toc/cli.py', 'md_toc/__main__.py'], [('CliToApi.write_toc', 'md_toc/cli.py'), ('CliInterface.create_parser', 'md_toc/cli.py'), ('main', 'md_toc/__main__.py')])
p('C22', 'Exit status tells success, error, misuse and difference apart',
  'The command exits with 0 on success, with 128 exactly when --diff was given and some table differs from the one in its file, with 1 when any error prevents building or writing, and with 2 for an invalid command line. '
  'With several files a single differing one is enough; an error while building prints no table.',
  ['configurations', 'inputs'], 'every combination of files, differences, errors and the two modes',
  'The tests do not run the command line.',
  ['md_toc/cli.py', 'md_toc/__main__.py'], [('CliToApi.write_toc', 'md_toc/cli.py'), ('main', 'md_toc/__main__.py')])
p('C23', 'Calls are independent of earlier calls',
  'The result of building, comparing or writing a table of contents depends only on the arguments and the file, never on earlier calls in the same process, whatever documents, options, parsers or errors these had. '
  'Anchors are numbered by the counter the caller passes and by nothing else.',
  ['histories', 'configurations'], 'every earlier call: other documents, options, parsers, and failing or binary inputs',
  'Tests make single calls or calls whose order is fixed.',
  [API], [('build_toc', API), ('build_anchor_link', API), ('init_indentation_log', API)])
p('C24', 'Several files are treated as several single runs',
  'Building tables for several files gives one table per file in the given order, each the same as for that file alone with all the options applied; without file names standard input is read. '
  'Writing to several files gives each its own table and reports equality only when all are equal; a different number of files and tables is refused with nothing written.',
  ['inputs', 'configurations'], 'every list of files, every option',
  'Tests use at most a few fixed files with default options.',
  [API], [('build_multiple_tocs', API), ('write_strings_on_files_between_markers', API)])
p('C25', 'Undecodable files give the placeholder and nothing else',
  'When a file cannot be decoded as text the result is the single documented placeholder comment naming the file, wherever the offending bytes are (first line, last line, inside fences, in skipped lines) and with any options. '
  'Other files of the same run are not affected, and decodable text never gives the placeholder.',
  ['inputs', 'configurations'], 'every position of the offending bytes in every file',
  'One binary file is tested.',
  [API], [('build_toc', API)])
p('C26', 'Parsers documented as equal give equal tables',
  'github and commonmarker give the same outcome for every document and option, cmark and goldmark do, and gitlab differs from cmark only where runs of hyphens in anchors are collapsed. '
  'This covers headings, fences, labels, anchors, numbering limits and list forms.',
  ['inputs', 'configurations'], 'every document and option, every pair of sibling parsers',
  'Tests check mostly one parser of each pair, on literal inputs.',
  [API, 'md_toc/constants.py'], [('build_toc', API), ('parser table', 'md_toc/constants.py')])
p('C27', 'Emphasis markers, and only they, are removed from anchors',
  'For the CommonMark based parsers removing emphasis deletes exactly the asterisks and underscores that the CommonMark delimiter rules make into emphasis or strong emphasis, and keeps every other character in order. '
  'Markers inside code spans, autolinks, HTML tags, link destinations and link titles, escaped ones and unmatched ones are kept, and a link or an image is a boundary for the markers inside of it.',
  ['inputs', 'configurations'], 'every text of letters, blanks, punctuation, asterisks, underscores, backticks, backslashes, links, images, autolinks and tags',
  'Tests use the literal examples of the specification.',
  [API, 'md_toc/cmark/inlines_c.py'], [('remove_emphasis', API), ('_cmark_process_emphasis', 'md_toc/cmark/inlines_c.py'), ('_cmark_remove_emph', 'md_toc/cmark/inlines_c.py')])
p('C28', 'Every document gives a table of contents or a documented error',
  'For every document and heading text, with every parser and every valid combination of options, building a table of contents, reading a heading and building an anchor either return a result or raise one of the errors that md-toc defines for it '
  '(an empty or too long link label, an incoherent list, a too large list number; a newline in an anchor). No text, however malformed its links, tags, character references, code spans or emphasis are, makes them fail with an internal error such as IndexError, KeyError, TypeError or a bare ValueError.',
  ['inputs', 'configurations'], 'every document, heading text, parser and valid option',
  'Tests use well formed headings; the failures need a construct that is cut off or malformed at one particular place.',
  [API, 'md_toc/cmark/inlines_c.py', 'md_toc/cmark/houdini_html_u_c.py', 'md_toc/cmark/buffer_c.py'], [('build_toc', API), ('get_md_header', API), ('build_anchor_link', API), ('_cmark_parse_inline', 'md_toc/cmark/inlines_c.py')])
p('C29', 'Inline HTML is removed from anchors, other text is not',
  'For the CommonMark based parsers removing HTML deletes exactly the well formed open tags, closing tags, comments, processing instructions, declarations and CDATA sections of a text, and leaves text without them unchanged. '
  'For github and commonmarker the tags that GitHub shows as text (such as title or script) are kept. The anchor of a heading with tags is the anchor of the heading without them.',
  ['inputs', 'configurations'], 'every tag name, attribute form, comment body and surrounding text',
  'Tests use the literal examples of the specification.',
  [API, 'md_toc/constants.py'], [('remove_html_tags', API), ('regular expressions', 'md_toc/constants.py')])
p('C30', 'No effect beyond the files that are named',
  'The program opens and changes only the files it is given: no other file is read, changed or left behind, and importing it changes nothing. '
  'It never uses the network, starts processes, runs generated code or deserialises data.',
  ['inputs', 'configurations', 'programs'], 'every function and call site of the package; every run',
  'Tests do not observe effects.',
  [API, 'md_toc/cli.py', 'md_toc/generic.py'], [('whole package', 'md_toc')],
  technique='call-graph effect analysis over the syntax trees; ' + AI)
p('C31', 'Strings of several lines are treated line by line',
  'Extracting headings from a string of several lines gives, line by line, the same results as extracting them from each line alone, for any of the three newline conventions and ignoring newlines at both ends. '
  'One result is given per line, and a text containing newlines is refused as an anchor.',
  ['inputs', 'histories', 'configurations'], 'every sequence of lines, every newline convention',
  'Tests use a few strings with two or three lines.',
  [API], [('get_atx_heading', API), ('get_md_header', API), ('replace_and_split_newlines', API)])
p('C32', 'Standard input gives the same table as a file',
  'The table of contents of a document read from standard input is the same as that of a file with the same content, for every parser and option, including errors and including documents that end inside a code fence or without a newline.',
  ['inputs', 'configurations'], 'every document and option',
  'Tests hardly use standard input.',
  [API], [('build_toc', API)])
p('C33', 'The newline convention of the source does not matter',
  'A document gives the same table whether its lines end in LF, CR LF or CR, mixed or not, with or without a newline at the end. '
  'Every entry of the table ends in the newline string that was asked for and contains no other line break.',
  ['inputs', 'configurations'], 'every document under every newline convention, every newline string',
  'Tests use LF documents.',
  [API], [('build_toc', API)])
p('C34', 'Removing marked positions of a line removes these and no others',
  'Given a line and a list of ranges, the result is the line without exactly the characters at the positions in the ranges, the others in order, whether ranges overlap, repeat, are empty or lie beyond the end.',
  ['inputs'], 'every line and list of ranges',
  'Only a few literal lines.',
  [API], [('filter_indices_from_line', API)])

# ---- not claimed
NA = []


def n(id, title, statement, over, text, tests, files, mech, reason):
    p(id, title, statement, over, text, tests, files, mech)
    P[-1]['na'] = True
    NA.append({'property': id, 'reason': reason})


n('C40', 'In-place writing survives a crash',
  'If the process is stopped at any point during an in-place run, the file has either its old content or its complete new content, never anything in between.',
  ['crash_points', 'fault_sequences'], 'every point at which the process can be stopped',
  'No test interrupts a run.',
  [API, 'md_toc/generic.py'], [('write_string_on_file_between_markers', API)],
  'The present program does not have this property (the old table is removed from the file in one step and the new one inserted in another, each a copy through a temporary file), and making it hold means redesigning the writing code, not a small repair; a static order-of-effects analysis would only restate that.')
n('C41', 'Every document is processed in time proportional to its size',
  'For every document the program terminates, in time that grows at most polynomially with the size of the document.',
  ['inputs'], 'every document of every length',
  'Tests use short documents.',
  [API, 'md_toc/constants.py', 'md_toc/cmark/inlines_c.py'], [('remove_html_tags', API), ('_cmark_cmark_parse_inlines', 'md_toc/cmark/inlines_c.py')],
  'Needs ranking arguments for the hand translated inline parser (dozens of mutually dependent loops over a mutable subject) and complexity bounds for backtracking regular expressions; no sound static argument within reach bounds them, and the abstract machine only shows termination for the families it enumerates.')
n('C42', 'Anchors follow the full inline grammar of CommonMark',
  'For every heading, including links, images, autolinks, entities and nested inline constructs, the anchor is the slug of the text that the CommonMark renderer would show.',
  ['inputs'], 'every heading with arbitrary inline markup',
  'Tests use a few literal headings.',
  [API, 'md_toc/cmark/inlines_c.py'], [('build_anchor_link', API)],
  'The program does not implement it (link destinations and entities stay in the anchor by design of its filters), and deciding equality with a complete renderer for all strings is beyond the pattern domain; the parts that hold are C13, C27 and C29.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                                'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['tests'],
                                'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}}, ensure_ascii=False) + '\n')
            assert len(q['title']) <= 80, q['title']
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 12)"',
         'checks': [{'property': q['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % q['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % q['id'],
                     'evidence_file': 'evidence/%s.json' % q['id'], 'technique': q['technique'], 'level': 'other', 'level_note': q['note']} for q in P if not q.get('na')],
         'not_applicable': NA}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
