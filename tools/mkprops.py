#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': mechanism, 'where': ', '.join(files)}]}})

p('C01', 'A byte stream is cut into exactly its lines, however it is delivered',
  'For every byte stream, the line iterator yields, in order and byte for byte, exactly the non-empty texts between separators (line return, literal backslash-n, and in JSON mode the JSON punctuation outside quotes), leaving out only those with more than 6000 bytes before the last character of their separator. The result depends on the bytes alone, never on how the reader splits them into reads, and the iterator always ends without panicking.',
  ['inputs', 'schedules'], 'every byte stream, with or without JSON splitting, and every sequence of read sizes',
  'Ten fixed strings delivered by an in-memory cursor, most in one read; no test puts a separator or the length limit across a read.',
  ['iterator/src/iterator.rs'], 'BytesLines: buffer, prev_pos, escaped, dropping; find_next_line, get_slice, read_slice, drop_until_next_line, next')
p('C02', 'The number of a line is its position in the file',
  'Every line the iterator yields carries the number 1 + (line returns in the stream before the line), whatever sub lines, JSON fields, empty lines and dropped over-long lines come before it.',
  ['inputs', 'schedules'], 'every byte stream and every sequence of read sizes',
  'A few short inputs; the counter is carried across reads, sub lines and dropped lines by a state machine tests sample at a few points.',
  ['iterator/src/iterator.rs'], 'BytesLines: state, line_count; update_line_counter')
p('C03', 'Read errors are reported and lose, repeat or invent no line',
  'A read error is yielded as an item exactly once at the point where it happens; going on after it yields exactly the lines and numbers that an undisturbed read of the same bytes yields, and once the end is reached the iterator keeps returning the end.',
  ['fault_sequences', 'inputs', 'schedules'], 'every byte stream, every set of positions where a read fails, every sequence of read sizes',
  'No test makes a reader fail.',
  ['iterator/src/iterator.rs'], 'BytesLines: the error arms of read_slice and drop_until_next_line, State::EoF')
p('C04', 'Anomalies are exactly the new log lines far from the baseline',
  'Inspecting a source reports as anomalies, in file order, each once, and with its verbatim text, its line number and its distance, exactly the lines whose token signature was not seen before in the inspected group and whose distance to the baseline is above 0.3. Inspection of a source ends for good at the first line that holds "TASK [log-classify"; an undecodable line or a read error is reported as an error, once, when it is met, and inspection can go on after it with every anomaly still reported; the line and byte counts are those of the decoded lines read.',
  ['inputs', 'histories'], 'every baseline, every sequence of target lines of any length (any number of chunks of 512 signatures or 5120 duplicates), any set of already seen signatures',
  'The tests use a dozen lines, below one chunk; duplicates across chunks, the duplicate overflow and the end of chunks are never reached.',
  ['model/src/process.rs', 'model/src/model.rs'], 'ChunkProcessor: buffer, targets, targets_coord, skip_lines, stopped; next, read_anomalies, do_search_anomalies')
p('C05', 'Anomaly contexts are the adjacent lines, at most three, never repeated',
  'The before context of an anomaly is the (at most three) lines that directly precede it and its after context the (at most three) that directly follow it, in file order and verbatim. Contexts stop at other anomalies and no line of a source appears twice in its report; the after context of an anomaly takes precedence over the before context of the next; the result does not depend on where internal chunks end.',
  ['inputs', 'histories'], 'every arrangement of anomalies, known lines and chunk boundaries',
  'The chunk boundary cases need more than 512 distinct signatures around an anomaly; the tests have a dozen lines.',
  ['model/src/process.rs'], 'ChunkProcessor: current_anomaly, left_overs, last_context_pos; do_search_anomalies, reset, collect_before')
p('C06', 'Training indexes every distinct baseline line once',
  'After training on any sequence of readers, the index holds exactly one entry for each distinct token signature of the lines read, whatever the number of lines, chunks and readers, and the line and byte counts equal those of the lines read. A reader that fails (read error or undecodable line) contributes the lines before the failure and does not prevent the other readers from being indexed; a baseline source that cannot be opened fails the training of its group.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of readers, of any length (any number of 512-line chunks), with read failures anywhere',
  'Tests train on two or three lines: the flush of a full chunk, the last partial chunk and duplicates across chunks or readers are not reached.',
  ['model/src/process.rs', 'model/src/model.rs'], 'ChunkTrainer: skip_lines, baselines, line_count, byte_count; add, complete, single; Index::train')
p('C07', 'Index distances: one per line, in order, minimum over all chunks',
  'Searching a list of target lines returns one distance per target, in order, each being one minus the highest similarity with any baseline row of any chunk (one when nothing is similar), so that it does not depend on the order of baselines, on how they are cut into chunks, or on the other targets. Distances are never above one, a target that is in the baseline has a distance of zero up to rounding, and a target sharing no word (hash bucket) with the baseline has a distance of one.',
  ['inputs'], 'every list of baselines, every partition of it into chunks, every list of targets',
  'Three hand-written baselines and targets; no test uses several chunks, an empty chunk, or a line repeated across chunks.',
  ['index/src/index.rs', 'model/src/model.rs'], 'search_mat, search_mat_chunk, cosine_distance, cosine_distance_chunk, create_mat, vectorize, ChunkIndex')
p('C08', 'Every eligible log file is in exactly one group, named by its relative path',
  'For every directory tree, the sources are exactly the regular files (no symbolic links) whose path has no excluded suffix (nor that suffix followed by .gz) and no /etc/ component, each in exactly one group; the group name depends only on the path relative to the analysed directory (the file name and its parent directory, without digits, symbols at its ends, the .gz suffix and a seven character commit hash directory), so the same file in two builds is always compared, and so are its rotated or numbered variants. A content without eligible source, or with a directory that cannot be read, is an error, and paths that do not fit their base never panic.',
  ['inputs', 'configurations'], 'every directory tree and every set of baselines',
  'The tests name nine paths for the group name and never list a directory tree with excluded, linked, nested and empty entries.',
  ['model/src/model.rs', 'model/src/files.rs', 'model/src/urls.rs'], 'Source::is_valid, get_relative, dir_iter, keep_path, get_sources, group_sources, IndexName::from_path')
p('C09', 'A target group is compared with its own index, or the only one',
  'The index used for a target group is the one trained under the same name if there is one; otherwise the only index when the model has exactly one; otherwise none, and the sources of that group are then listed as unknown instead of being compared with something else.',
  ['inputs', 'configurations'], 'every set of index names and every target name',
  'Tests only use models with one index.',
  ['model/src/model.rs'], 'lookup_or_single, Model::get_index, Model::report')
p('C10', 'The report accounts for every source, line, anomaly and error',
  'Every source of the target appears in the report according to what happened: its anomalies and counts if it has any, an entry in the read errors when it could not be opened or read to its end (together with the anomalies found before the failure was met), an entry in the unknown sources when no index fits, and nothing else. The total anomaly count is the sum of the anomalies listed, the total line count the sum of the lines read; a source that cannot be read never hides the others; signatures already seen in a group are not reported again in the next sources of that group; every group with anomalies has its index information exactly once.',
  ['inputs', 'configurations', 'fault_sequences'], 'every set of baselines and targets, with any sources unreadable, undecodable, duplicated or unknown',
  'No test builds a report from several sources, nor with an unreadable one.',
  ['model/src/model.rs'], 'Model::train, Model::report, Index::train, Index::get_processor')
p('C11', 'The HTML report shows every anomaly with its right line numbers and text',
  'Rendering any report succeeds, and shows for each source each anomaly and context line once, in order, the anomaly under its own line number and contexts under consecutive numbers around it, never below zero, with a separation where lines are missing between two anomalies. Texts coming from the logs, names and addresses are escaped, so that no content can add or break markup, and unescaping gives back the text.',
  ['inputs'], 'every report: any texts, any positions (also zero, and below the context size), any number of sources, groups and errors',
  'One rendered sample without special characters and with comfortable positions.',
  ['report/src/report.rs'], 'escape, render_log_report, render_lines and the table helpers')
p('C12', 'The cache serves only what was completely fetched, under the right key',
  'Reading through the cache delivers exactly the remote bytes and errors; after a complete read the cached entry gives back the same bytes; an entry that was not completely read is never served; distinct (base, url) entries of the same kind, and entries of different kinds, never share a file. A cached HEAD answer (recorded after a miss) and a cached directory listing equal what was recorded, and dropping an entry makes the next lookup a miss. When a content or a listing cannot be written completely, that is an error, and nothing is served for it until it was completely recorded.',
  ['inputs', 'histories', 'fault_sequences', 'crash_points'], 'every sequence of cache operations, every stream, read sizes and failure or abandonment point',
  'One small entry, read at once and to the end.',
  ['cache/src/cache.rs'], 'Cache: filename::{http, head, httpdir}, create, get, remote_add, httpdir_add; CacheReader: read, write, complete, discard')
p('C13', 'Crawling a directory index ends and lists the files of every page',
  'For every site, listing a directory index follows only links to strictly longer paths, so it ends even with loops, parent and self links; it skips /etc/ directories, treats index.html links as their directory, lists each file link of each visited page (links are the anchors whose address starts with a letter, a digit or a slash), and the list and the iterator give the same files. A page whose request or transfer fails, or with an invalid link, is reported as an error, not as a shorter list.',
  ['inputs', 'schedules', 'fault_sequences'], 'every set of index pages and link graphs, every interleaving of the four workers',
  'One two-page site.',
  ['httpdir/src/httpdir.rs'], 'Visitor::visit, Crawler::process, path_dir, parse_index_of, CrawlerIter::next')
p('C14', 'The baseline build is the best scored other build with logs',
  'The baseline discovered for a build is never that build itself, has a log URL, a ref URL and a change, has its logs available, and no other such candidate has a higher score, the score being: project and other change +50 (same change -500), same branch +50, gate or periodic pipeline +50, voting +10, minus one per day from its end date to today (nothing for a date in the future). At most one baseline is returned and no answer of the server causes a panic; an answer (a build or a list of builds) that cannot be decoded is an error, and is asked for again the next time.',
  ['inputs', 'configurations', 'fault_sequences'], 'every list of candidate builds, with missing fields, any dates, any order and any availability of the logs',
  'No test runs the discovery or the score.',
  ['model/src/zuul.rs', 'zuul/src/zuul-build.rs'], 'Build::baseline_score, elapsed_days, logs_available, discover_baselines, new_content, get_success_samples, get_builds, decode_builds')
p('C15', 'Zuul build addresses map to the right API, everything else stays a plain URL',
  'An address is handled as a Zuul build exactly when its path ends with /build/ and a 32 character alphanumeric identifier; the API is then the tenant API when the path has /t/TENANT before it and the white label API otherwise, on the same host, and the identifier is passed unchanged. Every other address with a host is a directory when it ends with a slash and a file otherwise; no address causes a panic.',
  ['inputs'], 'every URL',
  'Two fixed addresses.',
  ['model/src/zuul.rs', 'model/src/urls.rs'], 'get_zuul_api_url, is_uid, api_from_webui, api_from_whitelabel_webui, Content::from_url')
p('C16', 'Tokenizing is total and depends on each word alone',
  'For every line (up to the 6000 bytes the reader delivers), tokenizing ends without panic, and a line that is not filtered as a whole gives the concatenation, in order, of what each of its words gives by itself. A word that is a date, hash, identifier, cookie, address, temporary path, ref or base64 text gives only the matching placeholder whatever its value, an error word is amplified and never dropped, any other word of at most three bytes gives nothing. Two such lines that differ only in the values of these literals get the same tokens, so they are the same signature.',
  ['inputs'], 'every line of text',
  'About sixty sample lines; recursion over key/value, nested and dashed words is sampled at depth one or two.',
  ['tokenizer/src/tokenizer.rs'], 'process, do_process, parse_literal, push_error and the word predicates')
p('C17', 'Sources are read and decompressed faithfully',
  'Opening a local source yields exactly the bytes of the file, and exactly the decompressed content (of all its members) when its name ends with .gz; a file that is missing, truncated or corrupt yields an error, never silently less data; reading a remote source yields the body of a successful answer, and an unsuccessful status is an error.',
  ['inputs', 'fault_sequences'], 'every file content and name, every truncation point, every HTTP answer',
  'No test reads a compressed file or a failing URL.',
  ['model/src/reader.rs', 'model/src/files.rs', 'model/src/urls.rs'], 'from_path, from_url, remote::get_url, DecompressReader::read')
p('C18', 'A saved model or report is loaded back equal',
  'Saving a model or a report and loading it back gives an equal value, with the same behaviour. A save that cannot be written completely is an error, and a file that is missing, truncated or damaged never panics and is an error or, when the damage does not matter, gives the value that was saved.',
  ['inputs', 'fault_sequences'], 'every model and report, every corruption, every write error',
  'No test saves a model.',
  ['model/src/model.rs'], 'Model::save, Model::load, Report::save, Report::load (serde derive, bincode, flate2)')
p('C19', 'The command line prints and writes the analysis it was asked for',
  'Without --report, every source of the target is inspected in order and by itself against the model, and its anomalies are printed once each, in order, with their number and text, the context lines around them numbered one after the other, and a separation between parts that do not follow each other; a source that cannot be read or has no baseline is announced and the other ones are still inspected. With --report the page of the model\'s report is written to that file. An existing --model file is loaded (giving baselines too is an error), otherwise a model is trained from the given or discovered baselines and saved to that file before the inspection; train saves the model of its baselines. The baseline discovered for a local FILE is FILE.0; a directory or a remote file has none, which is an error. An argument is an url exactly when it has an http or https scheme. A failure gives a non zero status and prints no result.',
  ['inputs', 'fault_sequences'], 'every command, target, model and baseline, readable or not',
  'The command line has no test.',
  ['cli/src/main.rs', 'model/src/model.rs', 'model/src/files.rs'], 'Cli::run, process, process_live, Input::from_string, Content::from_input, Content::discover_baselines')
p('C20', 'A dataset is accepted exactly when its anomalies are the expected ones',
  'The test command succeeds exactly when, for each of the datasets given, inspecting its .fail file with a model of its .good file gives no error and as many anomalies as its inf.yaml lists, each of them, in order, holding the expected text (without the white space around it). Anything else (a missing or undecodable file, a read error, one anomaly too many, too few, or another one, in any of the datasets) gives a non zero status, never a panic.',
  ['inputs', 'fault_sequences'], 'every list of datasets, expectations and file contents',
  'The test command has no test.',
  ['cli/src/dataset.rs', 'model/src/model.rs'], 'test_datasets, load_inf, process, assert_anomaly_includes, Index::inspect')
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
