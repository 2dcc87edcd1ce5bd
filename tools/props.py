"""single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, na=na))

prop("C01", "Splitting a bag loses, duplicates and alters nothing",
 "When a source bag (directory or serialized) is split, by any of the splitters or by completing and applying a plan, every payload file, every tag file other than the standard bag files (bag declaration, bag metadata, manifests, fetch list, all at the bag's top level), and every empty directory of the source appears in exactly one output bag, at the same path and with the same bytes, and no output bag holds payload that the source does not have. This holds for every combination of file names, sizes, directory layouts, size limits and files reserved for the head bag.",
 ["inputs"], "all file sets (names, nesting, sizes including zero), splitters, size limits and reserved-file lists within the bounds",
 "Packing decisions depend on how sizes compare with each other and with the limit; tests use a few fixed data sets in which most orderings, ties and name patterns never arise.",
 ["multibag/split.py", "multibag/access/extended.py"],
 [("SplitPlan.missing/complete_plan/apply_iter", "multibag/split.py"), ("WellPackedSplitter/NeighborlySplitter._apply_algorithm", "multibag/split.py"), ("nonstandard/replicate", "multibag/access/extended.py")])

prop("C02", "Split bags respect the size limit and the head-bag reservations",
 "In a plan made by a size-limited splitter, the files assigned to any one output bag total at most the maximum size, unless the bag holds a single file that by itself exceeds the maximum or is the extra head bag for reserved or left-over items; a bag is not filled further once it exceeds the target size; the total recorded for a bag is the sum of its files' sizes; and files reserved for the head bag are placed in the last bag and nowhere else, however the reserved paths are written (with or without leading slash). Planning terminates, leaves the caller's reservation list unchanged, and puts every file that still fits into the current bag before opening a new one.",
 ["inputs"], "all multisets of file sizes, directory placements, maximum and target sizes and reservation lists within the bounds",
 "The guarantee is about every relation between sizes and limits (ties, exact fits, zero sizes, single oversize files), not about the one data set in the tests.",
 ["multibag/split.py"],
 [("WellPackedSplitter._apply_algorithm", "multibag/split.py"), ("NeighborlySplitter._select_from_dir", "multibag/split.py")])

prop("C03", "Split output is a consistent multibag aggregation",
 "After a split, the last output bag is the only head bag; its member list names exactly the output bags, in output order with the head bag last, and its lookup list maps every file to the one output bag that contains it and names nothing else. Every output bag carries the source's checksum entry for each file it holds and no entry for a file it does not hold, a payload count and size matching its actual payload, the declaration file of the source, and the source's own metadata (apart from names the caller excluded) with the documented renamings; the head bag keeps a verbatim copy of the source's metadata. If the source is itself the head bag of an aggregation, the earlier members precede the output bags in the member list (a name used again is listed once, for the output bag), files of earlier members keep their lookup entry unless the source provides them, and the source's deletion list is kept.",
 ["inputs"], "all source bags (files, checksum algorithms, metadata) and split configurations within the bounds",
 "Tests compare a handful of output lines for one source bag; the relation between lookup, member list, manifests and actual content must hold for every plan.",
 ["multibag/split.py"], [("SplitPlan.apply_iter", "multibag/split.py"), ("SplitPlan._record_hash", "multibag/split.py"), ("SimpleNamer", "multibag/split.py")])

prop("C04", "Splitting and then restoring gives back the original bag",
 "Restoring the head bag of a split, with the output bags as directories or serialized, yields a bag with exactly the original's payload files, tag files and empty directories, byte for byte, the original's metadata apart from recomputed sizes, and manifests that list each file with its original checksum. No multibag-specific files or metadata remain in it. If the source is itself the head bag of an aggregation, restoring the head bag of its split gives the same files as restoring the source.",
 ["inputs"], "all source bags, splitters and limits within the bounds",
 "It is an end-to-end composition law over all inputs; tests restore only pre-split fixture data.",
 ["multibag/split.py", "multibag/restore.py"], [("BagRestorer.restore", "multibag/restore.py"), ("SplitPlan.apply_iter", "multibag/split.py")])

prop("C05", "Restoration combines members in order, later ones winning",
 "Restoring an aggregation yields exactly the union of its member bags' payload and tag files, taken in member-list order so that where several members provide the same path the version from the last of them is the one restored, wherever the head bag lies and whether members are directories or serialized. Files already restored are never replaced by an older version, and nothing is added that no member provides.",
 ["inputs", "histories"], "all assignments of files to members, member orders, overlaps and forms of storage within the bounds",
 "Tests restore one fixed aggregation in which few paths overlap; precedence has to hold for every overlap pattern.",
 ["multibag/restore.py"], [("BagRestorer.restore/restore_member", "multibag/restore.py")])

prop("C06", "Deleted paths are never restored, and only those are withheld",
 "A path listed as deleted in the head bag is absent from the restored bag, its manifests, its fetch list and its payload totals, regardless of which members provide it; every path not listed as deleted is restored. Blank lines and surrounding whitespace in the deletion list do not change the set of deleted paths.",
 ["inputs"], "all deletion lists and file placements within the bounds",
 "The tests delete at most one path from one fixed aggregation.",
 ["multibag/restore.py", "multibag/access/multibag.py"], [("BagRestorer.restore", "multibag/restore.py"), ("HeadBagReadMixin.iter_deleted/deleted_paths", "multibag/access/multibag.py")])

prop("C07", "A restored bag's manifests and metadata agree with its content",
 "In a restored bag each payload and tag manifest entry names a restored (or fetchable) file and carries the checksum of the version actually restored, every restored payload file is listed in the payload manifest of each algorithm that its providing member used, and the recorded payload size and count equal those of the restored payload. The metadata are those the aggregation recorded for the combined bag when it recorded any, otherwise the head bag's own, without the elements specific to multibags, and the multibag tag directory, whatever its configured name, is gone.",
 ["inputs"], "all aggregations (overlaps, deletions, checksum algorithms, tag directory names, metadata) within the bounds",
 "Tests check one restored bag; stale or missing manifest lines only appear for particular override and algorithm combinations.",
 ["multibag/restore.py"], [("BagRestorer._update_manifests/update_info", "multibag/restore.py")])

prop("C08", "Fetch lists of the members are merged with later members winning",
 "The restored bag's fetch list contains one entry for each path that some member lists to be fetched and that is not deleted; where members disagree, the entry of the last member in member-list order is used, unchanged in URL and length. A bag without any fetch entries gets no fetch list, and names containing spaces or missing final newlines neither lose nor corrupt entries.",
 ["inputs"], "all fetch lists over a bounded set of members, paths, urls and lengths",
 "Tests merge one pair of lists; precedence and formatting variants need all combinations.",
 ["multibag/restore.py"], [("BagRestorer.restore_fetch", "multibag/restore.py")])

prop("C09", "Amending keeps the earlier aggregation and adds the update on top",
 "The amended head bag lists the earlier member bags in their order, then the amending bags, then itself last, each once and with the location and remarks given for it; every file maps to the last listed bag that provides it, files of the earlier aggregation that the amendment does not touch keep their mapping, and paths deleted before or by the amendment stay deleted unless the amendment provides them again. The new head records its version, what it deprecates (all that the earlier head deprecated, and the earlier head), and keeps its payload totals correct.",
 ["inputs", "histories"], "all earlier aggregations, amending bags, deletion lists and option combinations within the bounds",
 "Tests amend one fixture bag; the laws concern every overlap of names, lookups and deletions, and repeated amendments.",
 ["multibag/amend.py", "multibag/access/multibag.py"], [("Amender.init_from_amendee/add_amending_bag/finalize", "multibag/amend.py"), ("amend_bag_with", "multibag/amend.py")])

prop("C10", "Splitting, restoring and amending leave their source bags unchanged",
 "No file or directory of the bag being split, of the member bags being combined, or of the bag being amended is changed, added or removed by splitting, restoring to another place, or amending, even if the operation fails part-way. In particular, writing metadata into an output bag never changes a source file that the output shares with it by hard link.",
 ["inputs", "crash_points"], "all source bags and operations within the bounds, and a failure at each file-system operation",
 "Aliasing through hard links and failures part-way are not exercised by the tests.",
 ["multibag/split.py", "multibag/restore.py", "multibag/amend.py", "multibag/access/extended.py"], [("replicate", "multibag/access/extended.py"), ("SplitPlan.apply_iter", "multibag/split.py"), ("BagRestorer.restore", "multibag/restore.py")])

prop("C11", "Multibag tag files survive writing and reading back",
 "Any member list (names, locations, extra information, comments), file lookup and deletion list that is set on a head bag and saved is read back identical (member list and lookup in the same order) by a fresh read-only or writable view of the bag. This holds for every character allowed in a name, including spaces, hashes and non-ASCII line-separator characters inside it.",
 ["inputs"], "all field values up to a bounded length over an alphabet with every character class the parser distinguishes",
 "Formatting and parsing are separate functions whose agreement matters for all strings; tests use plain identifiers.",
 ["multibag/access/multibag.py", "multibag/access/extended.py"], [("MemberInfo.format/parse_line_03", "multibag/access/multibag.py"), ("save_member_bags/save_file_lookup/save_deleted", "multibag/access/multibag.py")])

prop("C12", "Tag-file lines are read as the multibag profile specifies",
 "For every line of a member list, file lookup or deletion list that the profile allows, the bag name, location, extra fields, comment and path read from it are those the profile defines: the name is what precedes the first tab without surrounding spaces, the location is the second field or none when empty, a comment starts with '# ' in a later field, and spaces around the separating tab of a lookup line belong to neither field. Blank lines and line terminators contribute nothing, and lines of older profile versions are read by their own format.",
 ["inputs"], "all lines up to a bounded length over an alphabet with every character class the parser distinguishes",
 "Line grammar corner cases (spaces, tabs, hashes in every position) vastly outnumber the sample lines in tests.",
 ["multibag/access/multibag.py", "docs/multibag-profile-spec.md"], [("MemberInfo.parse_line_03/02, parse_file_lookup_line_03, parse_deleted_line_04", "multibag/access/multibag.py")])

prop("C13", "Head-bag edits behave like edits of lists and maps",
 "Any sequence of adding, overriding and removing members, adding and removing file lookups, marking and unmarking deletions, changing the tag directory, saving and reopening leaves the head bag reporting exactly what the same sequence applied to a plain ordered list, map and set would give. Nothing saved earlier is lost by a later edit, unsaved edits never reach the disk, and the result is the same whether or not the data had been read before the edit.",
 ["histories", "inputs"], "all operation sequences up to a bounded length over small sets of names",
 "Caching makes behaviour depend on the history of calls; tests run each method in one fixed order.",
 ["multibag/access/multibag.py"], [("HeadBagUpdateMixin", "multibag/access/multibag.py")])

prop("C14", "Version comparison is a consistent total order",
 "For all version values, however built (from text or from a sequence of fields), exactly one of less, equal and greater holds, the six comparison operators agree with each other, comparison is transitive, and numeric fields compare as numbers field by field with a version that is a proper prefix ordering first; a field that is no number (or empty) comes before any number.",
 ["inputs"], "all version strings up to a bounded length over digits, dots and letters, and all field sequences of bounded length",
 "Order laws quantify over pairs and triples of values.",
 ["multibag/constants.py"], [("Version", "multibag/constants.py")])

prop("C15", "Validation results are aggregated without losing or inventing issues",
 "For every sequence of recorded outcomes, the results report as failed exactly the failed ones and as passed exactly the passed ones, grouped by error, warning and recommendation as recorded and filtered by exactly the kinds asked for; a result is acceptable for a set of kinds precisely when it has no failed outcome of those kinds, and the strict entry points raise precisely then. Results handed from one validator to the next keep every outcome of both, and an issue converted to its portable form and back is unchanged.",
 ["inputs", "histories"], "all sequences of outcomes and kind filters within the bounds",
 "Filter masks and outcome kinds combine multiplicatively; the tests try a few of them.",
 ["multibag/validate/base.py"], [("ValidationResults, ValidationIssue, Validator.ensure_valid/is_valid", "multibag/validate/base.py")])

prop("C16", "Head-bag validation reports exactly the violated requirements",
 "For a head bag that satisfies the profile the validator reports no failure, and for a head bag that breaks a stated requirement (profile version, reference, tag directory, head version, deprecation entries, recommended metadata, presence and format of the member list, member locations being absolute, the head bag being listed and listed last, repeated members, presence and format of the file lookup, its entries for the head bag existing, repeated entries, coverage of the payload, format of the aggregation metadata, validity as a bag) it reports a failure of that requirement, with the same kind (error, warning, recommendation) whatever else is right or wrong in the bag. Validation never aborts with an exception on any bag that can be opened.",
 ["inputs"], "all combinations of defects in metadata, member list, file lookup, aggregation metadata and payload within the bounds",
 "Each requirement must be reported whatever else is right or wrong in the bag; tests flip a few individual defects.",
 ["multibag/validate/headbag.py"], [("HeadBagValidator.validate_*", "multibag/validate/headbag.py")])

prop("C17", "Bag and member validation accept exactly intact bags",
 "Validating a bag or a member bag reports an error whenever a payload or listed tag file was altered, lost or added, the payload totals disagree, or required metadata are missing or malformed, and reports no error when the bag is intact. Malformed metadata values lead to a reported failure, not to a crash.",
 ["inputs"], "all small bags and all single and double corruptions of them within the bounds",
 "Corruptions are a large space: each file, manifest and metadata element can be wrong in several ways.",
 ["multibag/validate/bag.py", "multibag/validate/member.py", "multibag/access/bagit.py"], [("BagValidator.validate", "multibag/validate/bag.py"), ("MemberBagValidator.validate", "multibag/validate/member.py"), ("ReadOnlyBag.validate", "multibag/access/bagit.py")])

prop("C18", "Writable, read-only and serialized views of a bag agree",
 "A bag opened for writing from a directory, opened read-only from that directory, or opened read-only from a zip or tar serialization of it reports the same files, directories, sizes, non-standard content, payload total, metadata, manifest entries, fetch entries and file text.",
 ["inputs"], "all small bag trees (nesting, empty directories, odd names, special names in unusual places) within the bounds",
 "There are two independent implementations of each query; tests exercise each on its own fixture.",
 ["multibag/access/extended.py", "multibag/access/bagit.py"], [("ExtendedReadMixin/ExtendedReadWriteMixin", "multibag/access/extended.py"), ("ReadOnlyBag", "multibag/access/bagit.py")])

prop("C19", "Replicating a file succeeds faithfully or fails visibly",
 "Replicating a file of a bag to a destination either produces a file with identical bytes at the expected place or raises an error, whatever combination of hard-link, copy and permission failures occurs and whether or not a log is given. Intermediate directories are created as needed and nothing else at the destination or in the source is touched.",
 ["fault_sequences", "inputs"], "all fault schedules over the file-system operations performed, all destination forms within the bounds",
 "Tests never make a link or a copy fail.",
 ["multibag/access/extended.py"], [("replicate", "multibag/access/extended.py")])

prop("C20", "A bag is judged valid exactly when content and manifests agree",
 "Read-only validation of a bag, as a directory or serialized, succeeds when every payload file is listed, every listed file exists with the listed checksum in every manifest, and the payload totals match, and it fails, naming the offending files, when any one of these is not so. The quick form compares totals only and the completeness form compares names only.",
 ["inputs"], "all small bags with arbitrary placement of payload files, manifest entries, wrong checksums and totals",
 "Tests corrupt one file at a time in one fixture; agreement must hold for every combination.",
 ["multibag/access/bagit.py"], [("ReadOnlyBag.validate/_validate_contents/_validate_entries/_validate_oxum", "multibag/access/bagit.py")])

prop("C21", "Paths that leave the bag are refused",
 "No query or replication on a bag reads or reports anything outside the bag's root directory: a path that resolves outside it (through parent references, an absolute path, or a sibling directory whose name merely starts with the bag's name) is refused or reported as not existing. A manifest or fetch list that names such a path makes the bag invalid, and paths that stay inside are never refused.",
 ["inputs"], "all relative and absolute paths up to a bounded length over dots, slashes, the bag's name and an ordinary name",
 "Escape conditions depend on the combination of path segments; tests try two or three literals.",
 ["multibag/access/extended.py", "multibag/access/bagit.py"], [("_canon_path", "multibag/access/extended.py"), ("_path_is_dangerous", "multibag/access/bagit.py")])

prop("C22", "Generated test data sets have exactly the requested sizes",
 "For every requested total size and number of files, the sizes produced are non-negative, as many as requested, as equal as possible and sum to the request. A generated file has exactly the requested bytes, and a generated data set has exactly the requested bytes, files and layout: the default plan, plans whose directives state totals (repeated, nested or with a remainder) and plans in which one directive or a number of directories share the rest, provided every one of them gets at least one file and one byte.",
 ["inputs"], "all totals, counts and layouts within the bounds",
 "The arithmetic must be exact for every remainder; tests use a few numbers.",
 ["multibag/testing/mkdata.py"], [("UniformSizeIterator", "multibag/testing/mkdata.py"), ("DatasetMaker", "multibag/testing/mkdata.py")])

prop("C23", "Turning a bag into a single-bag aggregation is faithful",
 "Converting a plain bag in place makes it a head bag whose member list holds only itself, under its own name and with the location and remarks given, and whose lookup list maps exactly the files asked for (by default all payload files; otherwise those included and not excluded, added to the earlier ones unless truncated) to it. Payload, manifests, other tag files and unrelated metadata stay as they were; version, profile version, tag directory and reference are set as asked for. The result is a valid bag and, with the default lookup list, passes head-bag validation without errors; converting again or taking the documented steps one by one gives the same.",
 ["inputs"], "all small bags and option combinations within the bounds",
 "Tests convert one fixture bag with default options.",
 ["multibag/amend.py", "multibag/access/multibag.py"], [("SingleMultibagMaker.convert/make_single_multibag", "multibag/amend.py")])

prop("C24", "Member bags are found where documented or restoration fails",
 "For each listed member other than the head bag, restoration uses the unpacked bag of that name in the component directory (the one given or, with no retrieval function, the head bag's own directory), otherwise a serialized bag of that name there, otherwise what the retrieval function supplies for that name, and it never uses a bag of a different name. If none exists, or retrieval fails, restoration raises an error instead of producing an incomplete bag silently.",
 ["inputs", "fault_sequences"], "all combinations of available forms, names that are prefixes of one another, and retrieval outcomes",
 "Tests provide each member in one form only.",
 ["multibag/restore.py"], [("BagRestorer.find_member_bag/get_member_bag/restore_member", "multibag/restore.py")])

prop("C25", "Bag sizes are stated to four significant digits in the right unit",
 "The human-readable bag size written into a bag's metadata (when it becomes a head bag, is restored or its size is updated) is the total size of its files (for restored bags and size updates plus what the file system counts for directories), expressed in the largest fitting unit among B, kB, MB, GB and TB (powers of 1000) and rounded to four significant digits.",
 ["inputs"], "all byte counts up to 10^15 - 1 and small bags of sizes around the unit boundaries",
 "Rounding and unit boundaries must be right for every integer; tests compare a few literals.",
 ["multibag/access/extended.py", "multibag/access/multibag.py", "multibag/restore.py"], [("_format_bytes/calc_bag_size/update_bag_size", "multibag/access/extended.py"), ("_bag_size", "multibag/access/multibag.py"), ("update_info", "multibag/access/multibag.py")])

def main():
    built = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if f[0] == "C" and f.endswith(".py")]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fd.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in built and not p["na"]:
            checks.append({"property": p["id"],
              "quick_cmd": "python3-vt -m sx.run %s --tier quick" % p["id"],
              "thorough_cmd": "python3-vt -m sx.run %s --tier thorough" % p["id"],
              "technique": "bounded symbolic execution of the real Python source with z3, counterexamples replayed on the real code",
              "level": "model_checking",
              "level_note": p["note"] or "Exhaustive over the symbolic inputs within the bounds listed in the evidence file; file system, hashing and clock are modelled."})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q sx harness", "checks": checks, "not_applicable": na}, fd, indent=1)
        fd.write("\n")
main()
