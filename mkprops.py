#!/usr/bin/env python3
"""writes properties.jsonl (kept as code so that the text is easy to maintain)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A split plan assigns every file of the source bag to exactly one bag",
 "Planning a split of a bag, with either built-in size-limiting strategy, any size limits and any list of files reserved for the head bag, assigns every file of the bag (payload and tag files alike, except the BagIt special files directly in the bag's root: declaration, bag-info, fetch list, manifests) and every empty directory to exactly one output bag, and assigns nothing that is not in the bag. At any time a plan's report of what is still missing consists of exactly those files and empty directories not assigned to any output bag, and completing a plan leaves nothing missing without changing what was already assigned. The output bags of a plan get the names supplied for them, in order (or in reverse order, when asked), each bag exactly one.",
 ["inputs", "configurations"], "all directory trees (names, sizes, nesting, empty directories), all size limits and target sizes, all reserved-file lists, both strategies, hand-made partial plans",
 "The tests split one 5-file sample bag with a few limits; losing or duplicating a file depends on size ties, the packing order, nesting and name shapes that the sample does not have.",
 ["multibag/split.py", "multibag/access/extended.py"],
 [("packing loop", "split.py WellPackedSplitter._apply_algorithm, _add_to_manifest"), ("directory-wise packing", "split.py NeighborlySplitter._apply_algorithm, _select_from_dir, _dirpaths_for"), ("candidate listing", "split.py WellPackedSplitter._sorted_files, _is_special; extended.py ExtendedReadMixin.nonstandard"), ("completion", "split.py SplitPlan.missing, find_destination, complete_plan, is_complete, name_output_bags")],
 [("SplitPlan._manifests", "ordered list of planned bags with their contents", "split.py")],
 ["SplitPlan.manifests()", "SplitPlan.missing()", "SplitPlan.find_destination()"])

prop("C02", "Planned bags respect the size limits and the head bag's reservations",
 "In a plan made by either built-in strategy, every output bag, other than the final bag added to collect reserved files and empty directories, holds files totalling at most the maximum size, unless it consists of exactly one file that by itself exceeds the maximum; leaving out the file added last, its total does not exceed the target size. The size recorded for each such bag is the sum of the sizes of its files, and no planned bag is empty. Files reserved for the head bag appear only in the last bag of the plan, and the caller's reservation list is not changed.",
 ["inputs", "configurations"], "all file size distributions, maximum and target sizes, reservation lists, both strategies",
 "Limits are violated only for particular size combinations (ties with the limit, zero-length files, over-sized files next to others); the tests use one bag and a handful of limits.",
 ["multibag/split.py"],
 [("limit test while packing", "split.py WellPackedSplitter._apply_algorithm; NeighborlySplitter._select_from_dir"), ("size accounting", "split.py _add_to_manifest"), ("descending order", "split.py _cmp_by_size, _sorted_files"), ("reservation", "split.py WellPackedSplitter.__init__ (forhead), _sorted_files, complete_plan")],
 None, ["SplitPlan.manifests()"])

prop("C03", "Each bag written by a split holds its planned files, intact and verifiable",
 "Applying a plan to a valid source bag writes the planned bags in order under their names, and each is a valid bag that contains exactly the files and empty directories planned for it (leaving out only the three multibag tag files that are generated anew for the head bag), each file byte-identical to the source's, besides the BagIt special files and, in the last bag only, the generated multibag tag files. The manifests written list, for every file included that has checksums in the source bag and for no other, exactly those checksums, and the payload byte and file counts recorded match the bag's payload. The bag-info values of the source are passed on, except those asked to be held back and those that the split documents as being transformed.",
 ["inputs", "configurations"], "all valid source bags (directory or serialized), all complete or partial plans, all names",
 "The tests apply plans for one sample bag and look at a few files of the results; corruption or a wrong checksum appears only for particular names, algorithms or plan shapes.",
 ["multibag/split.py", "multibag/access/extended.py"],
 [("writing loop", "split.py SplitPlan.apply_iter"), ("checksum transfer", "split.py SplitPlan._record_hash"), ("file copy", "extended.py replicate (both implementations)")],
 None, ["SplitPlan.apply_iter()", "Splitter.split()"])

prop("C04", "A split's head bag correctly lists its members and where each file is",
 "After a plan has been applied, the last bag written, and no other, is marked as the head bag; its member list names exactly the bags written in the order written (preceded by the members already listed if the source bag was itself a head bag), so that it lists itself last. Its file lookup maps every file included in any of the written bags to the name of the bag that holds it (for a file planned for several bags, the last of them), and lists no other file beyond those already listed by a source head bag. The head bag also carries a copy of the source bag's bag-info.",
 ["inputs", "configurations"], "all source bags and plans, including plans naming a file in several bags and sources that are head bags themselves",
 "The tests compare the lists for one three-bag split of a sample; ordering and last-one-wins errors need other plans.",
 ["multibag/split.py"],
 [("member and lookup accumulation", "split.py SplitPlan.apply_iter (memberbags, filedest)"), ("tag file writing", "split.py SplitPlan.apply_iter head bag section")],
 None, ["multibag/member-bags.tsv", "multibag/file-lookup.tsv of the last bag written"])

prop("C05", "Splitting, restoring and amending never change their input bags",
 "Splitting leaves every file of the source bag unchanged, restoring into a separate destination leaves the head bag and all member bags unchanged, and amending leaves the amended bag and the additional amending bags unchanged, on disk and in the tag data of a bag object passed in. This holds also when output files share storage with input files through hard links. No file outside the output directory, the destination bag or the new head bag is created, changed or removed.",
 ["inputs", "configurations"], "all input bags (including sources that are head bags), all plans and options, link and copy modes",
 "Aliasing damage shows only when an output that is linked to an input is later written to, a combination the tests do not set up; they never compare the inputs before and after.",
 ["multibag/split.py", "multibag/restore.py", "multibag/amend.py", "multibag/access/extended.py"],
 [("hard-link replication", "extended.py _ExtendedReadWritableMixin.replicate"), ("generated files are not replicated", "split.py SplitPlan.apply_iter"), ("read-only member access", "restore.py BagRestorer._restore_from"), ("copy of inherited values", "amend.py Amender._init_multibag_info")],
 None, ["bytes of all input bags before and after"])

prop("C06", "A restored bag takes each file from the last member bag that provides it",
 "Restoring an aggregation produces a bag in which every path provided by some member bag and not deleted has the content of the last-listed member that provides it, no path listed as deleted (nor anything below a deleted directory) is present, and nothing else is present. Each manifest of the restored bag lists for each such file the checksum from the member that supplied it and lists no deleted file, and the fetch list holds for every path that is not deleted the entry of the last-listed member having one. The restored bag carries no multibag tag directory and is valid whenever its members are and no file is left to fetch, in a separate destination as well as in place.",
 ["inputs", "histories"], "all sequences of member bags with overlapping paths, all deletion lists, mixed checksum algorithms, fetch lists, custom tag directories",
 "The tests restore two fixed aggregations with one overridden file; precedence, deletion and manifest merging errors depend on which of several members overlap and how.",
 ["multibag/restore.py"],
 [("reverse-order copying", "restore.py BagRestorer.restore, restore_member, _restore_from"), ("manifest merging", "restore.py BagRestorer._update_manifests"), ("fetch merging", "restore.py BagRestorer.restore_fetch"), ("deletion", "restore.py _restore_from (skip), _remove_deleted")],
 None, ["restore_bag()", "BagRestorer.restore()"])

prop("C07", "Splitting a bag and restoring it gives back the original bag",
 "For every valid source bag that has no multibag tag directory of its own, restoring the aggregation that a split of it produced yields a valid bag with the same files and empty directories, byte for byte (other than the bag-info file and the tag manifests), the same payload checksums, and the same bag-info values in the same multiplicity apart from the sizes, which are recomputed. This holds for every strategy, limit, reservation list and naming.",
 ["inputs", "configurations"], "all source bags, strategies, limits and names; intermediate serialization of members",
 "One sample bag is split and restored in the tests; loss happens for file shapes (empty directories, names resembling special files, tag files) that it lacks.",
 ["multibag/split.py", "multibag/restore.py"],
 [("plan completeness", "split.py complete_plan"), ("bag-info carried as aggregation info", "split.py apply_iter; restore.py restore"), ("recombination", "restore.py restore")],
 None, ["restore_bag() after Splitter.split()"])

prop("C08", "Amending yields a head bag describing old aggregation plus the update",
 "After amending an aggregation (or a plain bag), the new head bag's member list is the old list in its order, followed by the amending bags in the order given, followed by the new head bag itself, a bag named again moving to its new place and every member's URI, comment and extra fields being kept. Its file lookup maps every previously listed file and every payload file of the amending bags and the new head to the last of these bags that provides it, it deprecates all versions the old head deprecated followed by the old head's version, and it carries the version given. Paths deleted in the old aggregation stay deleted unless an amending bag or the new head provides them again; deletions already recorded in the new head are kept.",
 ["inputs", "histories"], "all old aggregations, sequences of amending bags, chains of repeated amendments",
 "The tests amend a sample once; re-listing, override order and chained amendments need histories they do not run.",
 ["multibag/amend.py", "multibag/access/multibag.py"],
 [("initialization from the old head", "amend.py Amender.init_from_amendee, _init_member_bags, _init_file_lookup, _init_deleted, _init_multibag_info"), ("adding bags", "amend.py Amender.add_amending_bag, finalize; multibag.py update_for_member, add_member_bag"), ("conversion of a plain bag", "amend.py SingleMultibagMaker")],
 None, ["amend_bag_with()", "make_single_multibag()", "open_headbag() of the result"])

prop("C09", "Member, lookup and deletion lists survive being written and read back",
 "A member entry whose fields contain no tabs or line breaks and no surrounding white space (the URI and the extra fields not starting with '#', extra fields not empty) is the same after being formatted and parsed again, and a list of such entries, the file lookup and the deleted paths are the same (and, but for the deleted paths, in the same order) after being saved to a head bag and read back. Parsing ignores blank lines and the spaces around the tab after a name or path, reads the formats of both supported generations of the profile according to the version a bag declares, and rejects a line that lacks a required field.",
 ["inputs"], "all names, URIs, comments, extra fields and paths within the profile's name restrictions; all lists",
 "The tests parse a dozen literal lines; whether all field combinations survive the round trip cannot be sampled.",
 ["multibag/access/multibag.py"],
 [("member entry format and parsing", "multibag.py MemberInfo.format, parse_line_03, parse_line_02"), ("lookup and deleted parsing", "multibag.py parse_file_lookup_line_03, parse_group_directory_line, parse_deleted_line_04, iter_*"), ("saving", "multibag.py save_member_bags, save_file_lookup, save_deleted")],
 None, ["MemberInfo", "member-bags.tsv, file-lookup.tsv, deleted.txt"])

prop("C10", "Editing head bag data changes only what was asked and loses nothing",
 "Starting from whatever lists a head bag has on disk, adding a member puts it at the end (replacing an entry of the same name, and the lookup entries for it, unless asked not to) and removing one drops all its entries along with its lookup entries and the deletion marks of those files; adding or removing a lookup entry or a deletion mark affects only the path given. All other members, lookup entries and deletion marks keep their values and order, whether the data had been read before the edit or not, and saving makes the files hold exactly the resulting data. Lookups and listings always reflect the edits made, and re-reading discards unsaved ones.",
 ["inputs", "histories"], "all initial lists and all sequences of add, remove, set, save and re-read operations",
 "The result depends on the order of operations and on whether the data was cached; the tests call each method once or twice on fresh objects.",
 ["multibag/access/multibag.py"],
 [("member list edits", "multibag.py HeadBagUpdateMixin.add_member_bag, remove_member_bag, set_member_bags"), ("lookup edits", "multibag.py add_file_lookup, remove_file_lookup, files_in_member, update_for_member, clear_file_lookup"), ("deletion edits", "multibag.py set_deleted, unset_deleted, save_deleted, deleted_paths")],
 [("_memberbags, _filelu, _deleted", "cached lists; None until read", "multibag.py HeadBagReadMixin.__init__")],
 ["HeadBag methods and the saved tag files"])

prop("C11", "Path-based access to a bag never reaches outside of the bag's directory",
 "For every path string, testing, measuring, opening, walking or replicating a path of a bag acts on a location within the bag's own root directory or is refused (an error or a false answer): paths leading out of the bag, including into a sibling directory whose name begins with the bag's name, are never reported as existing, opened, walked or copied. Replicating writes only below the given destination directory. A bag whose manifests or fetch list name a path outside of the bag is refused as unsafe.",
 ["inputs"], "all path strings, all bag root paths",
 "Escapes need crafted combinations of '..', separators and similar sibling names; the tests try at most one.",
 ["multibag/access/extended.py", "multibag/access/bagit.py"],
 [("canonical path check", "extended.py _ExtendedReadWritableMixin._canon_path and its users"), ("walk and replicate", "extended.py walk, replicate"), ("listed path check", "access/bagit.py ReadOnlyBag._path_is_dangerous, fetch_entries, _load_manifests")],
 None, ["exists, isfile, isdir, sizeof, open_text_file, walk, replicate, fetch_entries"])

prop("C12", "Profile versions are ordered numerically, field by field",
 "Versions compare by their dot-separated fields, left to right, each as a whole number (a field that is not a number counting as less than zero), a version that is a proper prefix of another being the smaller; so 0.10 comes after 0.9. The six comparisons agree with each other as a total order, and give the same answer whether either side was given as a version object, a string or a tuple of numbers. Anything else is rejected with a type error.",
 ["inputs"], "all pairs and triples of version strings, tuples and objects",
 "The tests compare some ten literal pairs of equal form.",
 ["multibag/constants.py"],
 [("field parsing", "constants.py _2int, Version.__init__"), ("comparison", "constants.py Version.__eq__, __lt__, __le__, __ge__, __gt__, __ne__")],
 None, ["Version comparisons"])

prop("C13", "Validation verdicts agree with the recorded test results",
 "Every validation test recorded is counted exactly once, under the type it was recorded with and as either passed or failed, with its label, explanation and comments kept; asking for applied, passed or failed tests of any combination of types returns precisely the recorded tests of these types and status. Results are reported as acceptable if and only if no recorded test of a wanted type failed; a validator says a bag is valid, and its enforcing form refrains from raising, in exactly that case, and the error raised carries the results. A test issue exported as a tuple and re-imported is the same.",
 ["inputs", "histories"], "all sequences of recorded results, all type masks and wanted masks",
 "The tests record a few results with a few of the masks; agreement must hold for all of the mask and result combinations.",
 ["multibag/validate/base.py"],
 [("recording", "validate/base.py ValidationResults._add_issue, _err, _warn, _rec"), ("selection and verdict", "validate/base.py applied, failed, passed, count_*, ok"), ("validators", "validate/base.py Validator.validate, is_valid, ensure_valid; MultibagValidationError")],
 None, ["ValidationResults", "Validator.is_valid()", "Validator.ensure_valid()"])

prop("C14", "Bag validators report every violated profile rule and only those",
 "Validating a bag as a head bag reports as failed exactly the rules of the profile that the bag violates (among: BagIt validity, version, reference URL, tag directory, head version, deprecation format, emptiness and self-deprecation, member list present, URLs absolute, self listed and listed last, no repeats, lookup present, two fields a line, own files existing, no repeats, payload covered), with the severity the profile gives them, and never raises because of what its (UTF-8) tag files say. Validating it as a member bag reports a missing version, a bag name with tabs or surrounding white space, and head-only metadata in a non-head bag. Bags produced by this package's splitting, conversion and amendment of valid bags pass without errors.",
 ["inputs"], "all bags, valid or violating any combination of the rules",
 "The tests break a sample in some ways one at a time; interactions of rules and the never-raises part are not sampled.",
 ["multibag/validate/headbag.py", "multibag/validate/member.py", "multibag/validate/bag.py"],
 [("head bag rules", "validate/headbag.py HeadBagValidator.validate_*, _validate_*"), ("member bag rules", "validate/member.py MemberBagValidator.validate_bagname, validate_as_nonhead"), ("base rules", "validate/bag.py BagValidator.validate")],
 None, ["validate_headbag()", "validate_member()", "ValidationResults of the validators"])

prop("C15", "Generated test data and size accounting match what was requested",
 "Dividing a total size evenly over a number of files yields exactly that many sizes, differing by at most one and adding up to exactly the total; an inventory of sizes yields exactly the listed numbers of files of each size. A generated file has exactly the size requested, and a data set generated from a positive total size and a file count has exactly this many files and bytes. The payload totals a bag computes for itself equal the number and summed size of the files in its payload, and the totals reported for a filled directory are those of the files created.",
 ["inputs"], "all totals, counts and inventories (totals below 2^53, where floating point division is exact enough)",
 "Rounding errors appear for particular total and count pairs; the tests try a few.",
 ["multibag/testing/mkdata.py", "multibag/access/extended.py"],
 [("even division", "testing/mkdata.py UniformSizeIterator.iterate"), ("inventory", "testing/mkdata.py InventorySizeIterator.iterate"), ("file creation", "testing/mkdata.py create_file, DatasetMaker._fill_with_files"), ("payload accounting", "extended.py calc_oxum, update_oxum")],
 None, ["SizeIterator.iterate()", "create_file()", "mkdataset()", "calc_oxum()"])

prop("C16", "A serialized bag reads the same as the same bag in a directory",
 "Opening a bag from a zip or tar file gives the same files, contents, sizes, tag data, checksums and validation verdict as opening the directory it was made from.",
 ["inputs", "configurations"], "all bags, all supported serialization formats",
 "One or two sample zip files are opened by the tests.",
 ["multibag/access/bagit.py"],
 [("file system abstraction", "access/bagit.py ReadOnlyBag, Path, open_bag")],
 None, ["open_bag()"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as fd:
    for p in P:
        fd.write(json.dumps(p) + "\n")
print(len(P), "properties")
