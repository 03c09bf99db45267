HEAD = """
# Deciding properties of qri-io/dataset by property-based testing

(Written by tools/design.py from properties.jsonl, known_findings.txt, seeded/ and
tools/design_notes.py.)

The whole repository is a library of functions over streams and documents (plus one
small command), so every listed property can be stated as an executable check over
generated inputs, histories, chunkings, schedules or faults with an explicit oracle;
none is left to another technique and "not_applicable" is empty.

## Machinery

- `harness/` is a Go module (`replace github.com/qri-io/dataset => /repo`) with one
  package per property (an API change breaks the build of its own check only) on top
  of shared packages: `vt` (generators, faults, evidence, watchdog, replay), `dx`
  (datasets, tables, structures), `mx` (documents filled by reflection, so that new
  fields are generated and compared without an edit here), `jx` (an own JSON
  renderer), `cx` (an own CBOR encoder and decoder). Black box: only exported API, no
  hooks in /repo and no build tag.
- `check.sh Cxx quick|thorough` -> `tools/run.py`: builds the package against /repo's
  working tree, runs it in 6 (thorough: 8) seeded shards, merges evidence, and turns
  a failing case, shrunk by rapid, into a replay file (`check.sh Cxx --replay FILE`).
  Exit 0 held, 1 VIOLATION, 2 no verdict (build error, time-out of the harness).
- C15, C33, C34, C38, C39 run under the race detector (file RACE in the package).
- Sizes: rapid's integer draws favour small values and limits (the middle of a large
  range is nearly never hit), so `vt.N` draws a quarter of its values from ranges over
  100 evenly, from single bits, and `vt.U` always does. Texts, keys, literals and
  lengths are also taken from the string and integer literals of the source tree
  under test and their neighbours (`vt.DictStr`, `vt.DictInt`, `vt.DictLen`): a new
  limit or keyword in the code becomes a drawn value.
- Every check draws a few large cases: thousands of entries, texts past the 256 KiB
  read buffer, hundreds to thousands of columns or keys.
- Evidence: cases, non-trivial cases by the rule stated in the evidence file, counts
  per feature, samples.
- Cost: quick 1-100 s per check on 8 cores (all 41 about 12 minutes in turn), thorough
  up to 25 minutes each.

What "held" means: on everything generated. All levels are exploration or
fault_enumeration; every oracle is outside the code under test (encoding/json,
encoding/csv, compress/gzip, an own CBOR codec, own base58/sha2 framing, slices of
what was written, reflection over exported fields), except where two entry points of
the library are compared with each other, which the section says.
"""

NOTES = {
"C02": ["duplicate keys inside JSON objects below the top level", "!an earlier oracle mistake: floats in [2^53, 2^63) have an integral shortest decimal text, so a wanted float and a read integer are compared at double precision"],
"C04": ["bytes after the end of a definite-length document, simple values other than false/true/null, tags of 2^63 and up, tagged map keys or top level, and the value of the nesting limit"],
"C06": ["the text \"NULL\" in null columns, and whether \"1.0\" is an integer or a float"],
"C08": ["time values and non-empty text in null columns; cells longer than the 32767 characters the format allows (the harness once made such cells of wide arrays: a false alarm, corrected with `dx.fits`)"],
"C09": ["!closing a compressed reader or writer has to end the goroutines it started; this is judged by goroutine counts after a grace period"],
"C11": ["a zstd body cut at byte 0 (an empty stream is zstd's encoding of no content) and cuts inside a later frame header of multi-frame zstd streams"],
"C13": ["!CBOR reports unencodable values when the body is closed"],
"C14": ["negative limits and offsets"],
"C15": ["several consumers of one reader at once (readers are not documented as shareable)"],
"C16": ["a transform with nothing but secrets encodes as a bare reference (secrets are never encoded)"],
"C18": ["copy protection is judged at top-level keys only"],
"C19": ["arbitrary metadata is replaced as a whole, as documented"],
"C24": ["spreadsheet and ndjson schemas are fixed (array); a CSV's shape is sampled from its first 2000 rows; for failing compressed streams the verdict may differ from run to run as zstd reads ahead; ties between column types, and the byte count of FromReader"],
"C25": ["arrays and objects are inferred by their first character; TypeBytes has no name"],
"C28": ["quantiles follow the mid-rank convention pinned by the repository's tests; the sketch encoding does not carry the bin limit; nested objects with child keys \"type\" or \"key\" (their statistics collide by design); which of equally close bins join, and the exact/approximate sign"],
"C29": ["Quantile of an empty sketch panics as documented"],
"C30": ["numbers compare in double precision; DiffDatasets needs non-nil datasets; the summary's colours where a printed text itself contains line ends (a false alarm of an early version)"],
"C31": ["empty lists, and adjacent separators that share a line end"],
"C33": ["!Create changes and returns its argument, as documented"],
"C35": ["AssignUseRandomType is stored but unused; MaxStringLength below 1"],
"C36": ["XLSX readers ignore malformed format options"],
"C37": ["arbitrary metadata; nil against empty containers (either verdict)", "!AccrualDuration is wrong for repeating or two-month periods, but pinned by the repository's tests, so not claimed"],
"C38": ["arbitrary metadata is outside the checksum; the mismatch path of golden files and dstest.Template call testing.T.Fatal and are not exercised"],
"C39": ["schedules beyond those the Go scheduler and yields in the sources produce; generation is compared with an assigned seed"],
"C40": ["cell values are random and judged by type only"],
"C41": ["schemas whose usability is unclear are not drawn"],
"C05": ["CSV and NDJSON entries need not carry an index beyond their position"],
"C12": ["!EachEntry with a wrapped end-of-data error is not judged"],
}

MISSED = {k: " (missed at first; the check was strengthened)" for k in
  ["readall-unexpected-eof", "each-entry-index", "diff-viz-path-prefix", "entry-buffer-pool"]}

TAIL = """
## Repairs and findings

Checking the properties on the pinned tree showed many genuine defects. Each that
had a small, safe repair is one "fix:" commit in /repo, listed in known_findings.txt
with the property that shows it; reverting one makes that check report it again.
Four are recorded as findings and not repaired: three are pinned by the existing
tests (so a repair would break them), one lies in the pinned spreadsheet dependency.
Each is matched by the specific input shape, so other violations of the same property
are still reported.

## How the checks were tested

- Planted bugs: seeded/ (listed above with the check that catches each). Written
  from property text and code; kept whether caught or not at first.
- Informal probes: some 450 further changes, run through an overlay and not
  kept: per property, per function, and by dimension ("panics or goes wrong only past
  N keys / bytes / columns / entries / sources"). Those that were missed led to: literal
  dictionaries (values equal to a constant in the code), even size draws, wide tables,
  long keys and texts, many arbitrary keys, many sources, many batches, late rows,
  readers driven by turns, non-seekable and slow sources, goroutine accounting.
- Mutation campaign: 6867 mutants of the non-test sources (operators, constants,
  conditions, dropped statements): 3836 fail the existing tests, 699 do not build,
  2332 survive the tests. Of the first 1056 of those put through the checks all but
  421 were caught, which after the strengthening above left equivalent changes,
  error wording, log output, and code outside any property.
- Not caught, and accepted: changes that show only for JSON objects of more than
  70000 keys in one value, CSV offsets past 10000 rendered from a template, or more
  than 1200 columns in title checks.

## False alarms met and corrected

Integral shortest decimals (C02), colours of multi-line summaries (C30), oversize
spreadsheet cells (C08, C14), read-ahead of zstd when a
stream fails (C24). In each case the check was wrong and was corrected; none is listed as a finding.
"""
