#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Externally tagged wire shape",
 "Serializing an externally tagged trait object into any serializer produces a map declared with length 1 holding exactly one entry, whose key is the implementation's tag name and whose value is the concrete value, and then ends the map and returns the serializer's result. If any serializer call fails, nothing more is written and that error is the result.",
 ["inputs", "fault_sequences"], "every serializer, every concrete value, every serializer call that may fail",
 "The tests serialize a handful of values with serde_json only, which ignores declared lengths and whose serializer never fails.",
 ["src/externally.rs", "impl/src/tagged_trait.rs"],
 [("externally tagged writer", "src/externally.rs serialize"), ("generated Serialize impl for dyn Trait", "impl/src/tagged_trait.rs expand")],
 ["calls made on the user's Serializer"])
prop("C02", "Adjacently tagged wire shape",
 "Serializing an adjacently tagged trait object into any serializer produces a struct named after the trait, declared with 2 fields, whose first field is the configured tag key holding the implementation's tag name as a string and whose second field is the configured content key holding the concrete value, and then ends it. If any serializer call fails, nothing more is written and that error is the result.",
 ["inputs", "fault_sequences"], "every serializer, concrete value and failing serializer call",
 "Tests only compare JSON text for sampled values; JSON drops the struct name and length and the writer never fails.",
 ["src/adjacently.rs", "impl/src/tagged_trait.rs"],
 [("adjacently tagged writer", "src/adjacently.rs serialize")], ["calls made on the user's Serializer"])
prop("C03", "Internally tagged wire shape for every data-model kind",
 "Serializing an internally tagged trait object writes the tag entry first, and then: for structs, one entry per field in order, keyed by the field name; for maps, its entries in order; for enum variants, one entry keyed by the variant name holding unit, the inner value, or a tuple struct / struct named after the variant; for unit and unit structs nothing more; for every remaining kind (booleans, numbers, chars, strings, bytes, options holding a value, sequences, tuples and tuple structs) one entry keyed `value` holding that same value. Newtype structs are transparent, and an absent option writes only the tag.",
 ["inputs"], "every concrete value, by data-model kind and nested content, and every serializer",
 "About 20 JSON comparisons sample a few of the roughly 30 data-model kinds, each with one content and one serializer.",
 ["src/internally.rs", "src/ser.rs"],
 [("tagging serializer adapter", "src/ser.rs InternallyTaggedSerializer"), ("buffer of nested values", "src/ser.rs Content")],
 ["calls made on the user's Serializer"])
prop("C04", "Declared lengths match what is written",
 "Whenever typetag opens a sequence, tuple, map or struct on the user's serializer with a declared length, exactly that many elements, entries or fields are written before it is ended successfully, provided the concrete value's own declared lengths are right.",
 ["inputs"], "every concrete value and nesting, in each of the three representations",
 "JSON ignores declared lengths, so nearly every test is blind to them; length-prefixed formats silently corrupt the stream.",
 ["src/ser.rs", "src/externally.rs", "src/adjacently.rs"],
 [("length arithmetic of the tagging adapter", "src/ser.rs serialize_map, serialize_struct"), ("length of replayed buffers", "src/ser.rs impl Serialize for Content")],
 ["lengths passed to the user's Serializer"])
prop("C05", "Nested values of internally tagged objects are written verbatim",
 "Inside an internally tagged object, every element of a sequence, tuple, tuple struct, tuple variant or struct variant reaches the user's serializer through the same data-model method, with the same name, variant name, variant index, length, order and content as the concrete value produced it, at every depth. Nothing is dropped, duplicated, reordered or converted to another kind.",
 ["inputs"], "every nested value of every data-model kind at every depth",
 "Tests buffer only integers and strings one level deep, so most of the capture and replay table is never exercised.",
 ["src/ser.rs"], [("capture", "src/ser.rs ContentSerializer and its compound serializers"), ("replay", "src/ser.rs impl Serialize for Content")],
 ["calls made on the user's Serializer"])
prop("C06", "A field that collides with the tag key",
 "When the concrete value of an internally tagged object is a struct that itself has a field named exactly like the tag key, serialization succeeds only if that field is a string (also a char, or inside options or newtypes) equal to the implementation's tag name, and the output then carries the tag key exactly once. Every other value of that field is reported as an error rather than writing a second tag, and fields with any other name are written normally.",
 ["inputs"], "every field name and every value kind of the colliding field",
 "Four tests sample matching and mismatching strings; the accepted set is defined by all value kinds and all strings.",
 ["src/ser.rs", "src/is_serialize_str.rs"],
 [("collision probe", "src/is_serialize_str.rs"), ("map and struct adapters", "src/ser.rs SerializeMapWithTag / SerializeStructWithTag")],
 ["calls made on the user's Serializer", "result of serialization"])
prop("C07", "Serializer protocol and error propagation when writing",
 "In every representation typetag drives the user's serializer through a legal protocol: each compound it opens is ended exactly once on success and not used after it ended or after any of its calls failed, map keys and values alternate, and the final value returned is the one the serializer produced. The first error from the user's serializer or from the concrete value is returned unchanged with no further call on the serializer.",
 ["inputs", "fault_sequences"], "every value, every interleaving of entry-wise and key/value-wise map writing, every failing call",
 "serde_json into memory never fails, so no error path on the writing side is executed by a test.",
 ["src/ser.rs", "src/externally.rs", "src/adjacently.rs"],
 [("tagging adapter and replay", "src/ser.rs"), ("writers", "src/externally.rs, src/adjacently.rs")], ["calls made on the user's Serializer"])
prop("C08", "Marker-trait objects behave like the plain trait object",
 "A trait object with additional Send and/or Sync bounds serializes to exactly the same calls on the serializer as the object without them, and wherever Box of such an object can be deserialized it accepts and rejects exactly the same input with the same dispatch as the strictest object the trait supports.",
 ["inputs", "programs"], "every combination of Send and Sync bounds, every value and input, all three representations",
 "Tests only check that such objects can be named or deserialized once; not that the generated impls agree.",
 ["impl/src/tagged_trait.rs"], [("generated impls for marker variants", "impl/src/tagged_trait.rs expand")], ["calls made on the user's Serializer and Deserializer"])
prop("D01", "Dispatch on the exact tag",
 "Deserializing a boxed trait object runs the deserialization function registered under exactly the tag string found in the input (or under the default tag), and no other. A tag that no implementation registered is an unknown-variant error that names the offending tag and lists every registered tag in sorted order, and nothing is dispatched.",
 ["inputs", "programs"], "every set of registered tags in every registration order, every tag string, all three representations",
 "Each test binary has one fixed set of registrations and looks up two or three of them.",
 ["src/de.rs", "impl/src/tagged_trait.rs", "src/private.rs"],
 [("registry construction", "impl/src/tagged_trait.rs static_registry"), ("lookup", "src/de.rs MapLookupVisitor")], ["function applied", "error value"],
 [("Registry", "tag to function map plus sorted names", "src/private.rs")])
prop("D02", "Ambiguous tags are refused",
 "If two or more implementations register the same tag for one trait, every deserialization naming that tag fails with an error identifying it, whatever the registration order and however many duplicates there are, and never picks one of them. All other tags of that trait keep working.",
 ["inputs", "programs"], "every multiset and order of registrations",
 "One test has one duplicated pair; order and multiplicity are chosen by the linker and never varied.",
 ["impl/src/tagged_trait.rs", "src/de.rs"], [("registry construction", "impl/src/tagged_trait.rs static_registry"), ("lookup", "src/de.rs")], ["function applied", "error value"])
prop("D03", "Externally tagged reading",
 "Reading an externally tagged object asks the format for a map, reads one string key, dispatches on it, and hands the dispatched function exactly the value of that entry. An empty map is an error naming the trait; no other entry is consumed and no value is read when the key is unknown.",
 ["inputs", "fault_sequences"], "every deserializer, key and point of failure",
 "Sampled with two JSON documents.", ["src/externally.rs", "src/de.rs"],
 [("visitor", "src/externally.rs TaggedVisitor"), ("apply", "src/de.rs FnApply")], ["calls made on the user's Deserializer / MapAccess"])
prop("D04", "Internally tagged reading with the tag anywhere",
 "Reading an internally tagged object asks the format for a map and finds the tag entry at any position; the dispatched function then sees a map of all other entries, each exactly once, with the original keys and values in the original order, and never the tag entry. If the tag comes first the remaining entries are streamed rather than buffered.",
 ["inputs", "fault_sequences"], "every number and order of entries, every key, every position of the tag, every failure point",
 "Tests place the tag first, and in one or two cases second or last, among two entries.",
 ["src/internally.rs", "src/content.rs"], [("scan loop", "src/internally.rs visit_map"), ("replay", "src/content.rs")], ["what the dispatched function observes"])
prop("D05", "Default variant is used exactly when the tag is absent",
 "With a default variant configured, an input without a tag entry is dispatched to the implementation registered under the default name with the full content, while an input that has a tag entry always uses that tag, even if it is unknown or malformed. Without a default, an absent tag is a missing-field error naming the tag key; an adjacent input lacking the content as well is a missing-field error.",
 ["inputs"], "every input, with and without a default variant, internally and adjacently tagged",
 "Two tests per representation sample one present and one absent tag.",
 ["src/internally.rs", "src/adjacently.rs"], [("default handling", "visit_map in src/internally.rs and src/adjacently.rs")], ["function applied", "error value"])
prop("D06", "Adjacently tagged reading is independent of key order",
 "Reading an adjacently tagged object from a map yields the same dispatch and content whichever of tag and content comes first; a repeated tag or content key is a duplicate-field error naming it, a tag without content applies the function to unit, and keys other than the two are skipped together with their values unless unknown fields are denied, in which case they are an unknown-field error naming the key.",
 ["inputs", "fault_sequences"], "every sequence of keys, with and without deny_unknown_fields and default_variant",
 "The tests cover a few fixed key sequences.", ["src/adjacently.rs"],
 [("key state machine", "src/adjacently.rs visit_map"), ("key classification", "src/adjacently.rs TagContentOtherFieldVisitor")], ["calls on MapAccess", "function applied", "error value"])
prop("D07", "Adjacently tagged reading from a sequence",
 "An adjacently tagged object presented as a sequence (as compact formats present structs) takes its first element as the tag and hands its second element to the dispatched function; a sequence with fewer than two elements is an invalid-length error stating how many there were. The format is asked for a struct with the trait's name and the two configured field names in order.",
 ["inputs", "fault_sequences"], "every deserializer and sequence length", "One postcard test samples one value.",
 ["src/adjacently.rs"], [("sequence visitor", "src/adjacently.rs visit_seq")], ["calls on SeqAccess"])
prop("D08", "Buffered input is replayed faithfully",
 "Any value of a self-describing format that typetag has to buffer before the tag is known is later presented to the concrete type with the same kind, the same content, the same order and, for borrowed strings and bytes, the same borrow, at every depth. Trailing elements or entries the concrete type does not consume are an error, not silently lost.",
 ["inputs"], "every value kind at every depth", "Tests buffer small structs of integers and strings.",
 ["src/content.rs"], [("capture", "src/content.rs ContentVisitor"), ("replay", "src/content.rs ContentDeserializer::deserialize_any")], ["Visitor calls observed by the concrete type"])
prop("D09", "Typed requests on buffered input follow serde's contract",
 "When the concrete type asks buffered input for a particular type, the answer is the one serde's own buffered deserializer gives: the stored value if the kinds are compatible (any integer for any integer request, strings for chars and identifiers, a one-entry map or a string for enums, unit or a missing value for options, and so on), transparently through newtypes, and otherwise a type error. A compatible value is never refused and an incompatible one is never accepted.",
 ["inputs"], "every buffered kind crossed with every deserialize request", "The table has hundreds of cells; tests exercise about ten.",
 ["src/content.rs"], [("typed deserialize methods", "src/content.rs ContentDeserializer")], ["Visitor calls observed by the concrete type", "error value"])
prop("D10", "Typed requests on a streamed internally tagged object",
 "When the tag came first, each typed request of the concrete type is served from the remaining entries of the map: map and struct requests stream all of them; unit requests consume nothing; scalar, string, bytes, sequence and tuple requests read the entry keyed `value` through the same typed request on its value; an option is absent when no such entry exists; an enum takes its variant from the key and its content from the value of the next entry; newtypes are transparent. A missing or differently named `value` entry is an error. Keys of map-like values are requested as the key type asks, and as strings where it asks for field or variant names. When other entries came before the tag, or there was none and a default variant applies, the buffered entries serve the same requests in the same way, and entries left over are an error.",
 ["inputs", "fault_sequences"], "every request kind crossed with every remaining map content",
 "About fifteen of the thirty request kinds are sampled, each with one well-formed document.",
 ["src/internally.rs"], [("streaming adapter", "src/internally.rs MapWithStringKeys, MapEntryAsEnum, MapValueAsDeserializer")], ["calls on MapAccess and the nested Deserializer"])
prop("D11", "Reader and writer agree",
 "For every data-model kind of concrete value and each of the three representations, the shape typetag writes is the shape its reader expects: the same keys in the same order, each written and requested as the same primitive type (a tuple and a tuple struct counting as the same), and as many entries as were declared, so that formats that do not describe themselves (postcard, bincode) read back what they wrote, whether they hand a struct to its reader as a map or as a sequence.",
 ["inputs"], "every data-model kind, with any content, written and read back in a non-self-describing format",
 "The only compact-format test uses one struct.",
 ["src/ser.rs", "src/internally.rs", "src/adjacently.rs", "src/externally.rs"], [("writer", "src/ser.rs InternallyTaggedSerializer, src/*.rs serialize"), ("reader", "src/internally.rs MapWithStringKeys")], ["Serializer calls against Deserializer requests"])
prop("D12", "Errors while reading are propagated, never swallowed",
 "Whenever the user's deserializer, its map or sequence access, a seed, or the dispatched function reports an error, deserialization of the trait object fails with that error and makes no further request of the format. No error is turned into a default, a skipped entry or an absent value.",
 ["inputs", "fault_sequences"], "every failure point on every path in all representations", "Tests have three or four failing inputs.",
 ["src/de.rs", "src/internally.rs", "src/adjacently.rs", "src/externally.rs", "src/content.rs"],
 [("error plumbing", "every `?` on the reading side"), ("apply", "src/de.rs FnApply")], ["result against the injected error"])
prop("D13", "Hostile input cannot panic or force preallocation",
 "No input, however malformed, makes reading a trait object panic, overflow an integer or index out of bounds, and no collection is allocated with a capacity taken from a length hint supplied by the format, unless a modest constant caps it. Malformed input ends in an error value.",
 ["inputs"], "every input to every representation, including lying size hints", "Tests use well-formed or nearly well-formed documents with truthful hints.",
 ["src/content.rs", "src/internally.rs", "src/adjacently.rs", "src/externally.rs", "src/de.rs"],
 [("absence of panicking operations", "the reading side")], ["panics reachable from Deserialize"])
prop("D14", "Human readability is consistent",
 "Every serializer and deserializer through which typetag passes the concrete value, directly or nested or buffered, reports the same human readability as the user's format, so that types that choose their encoding by it are written and read in the same encoding.",
 ["inputs", "configurations"], "every position a nested value can occur in, with human-readable and compact formats",
 "No test uses a type that consults it.", ["src/ser.rs", "src/internally.rs", "src/content.rs", "src/is_serialize_str.rs"],
 [("is_human_readable of each adapter", "src/ser.rs, src/internally.rs, src/content.rs")], ["is_human_readable as seen by the concrete type"])
prop("D15", "Position of the tag does not change what is read",
 "In a self-describing format, every concrete type that can be read when the tag comes first is read with the same result from the same entries when the tag entry of an internally tagged object comes later, or when the content entry of an adjacently tagged object comes before the tag. This includes types stored under the `value` key, optional types and enums, however the format presents enums, options and newtypes.",
 ["inputs"], "every data-model kind and every request kind with the tag after other entries", "Only struct types are tested with a late tag.",
 ["src/internally.rs", "src/adjacently.rs", "src/content.rs"], [("streamed path", "src/internally.rs MapWithStringKeys"), ("buffered path", "src/content.rs ContentDeserializer")], ["what the dispatched function observes on the two paths"])
prop("M01", "Tag name is the same for writing and registration",
 "For every implementation, the tag written when serializing is the tag under which its deserializer is registered: the explicitly given name, constant or expression, or otherwise the last path segment of the implementing type without generic arguments, and the registered function deserializes exactly that implementing type.",
 ["programs"], "every spelling of the attribute and every path to the type, including types spelled through macros, generics and modules",
 "Round trips in the tests use a few spellings only.", ["impl/src/tagged_impl.rs", "impl/src/parse.rs"],
 [("name choice and registration", "impl/src/tagged_impl.rs expand, type_name")], ["registered statics", "typetag_name"])
prop("M02", "Each implementation is registered exactly once, only where asked",
 "Each implementation under #[typetag::serde] or #[typetag::deserialize] contributes exactly one registration to exactly its own trait's registry, while #[typetag::serialize] contributes none; serialization impls exist exactly for traits marked serde or serialize, and deserialization impls exactly for those marked serde or deserialize.",
 ["programs"], "every combination of mode and trait, including several traits on one type", "Modes are only exercised by two small test modules, positively.",
 ["impl/src/lib.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"], [("mode switches", "impl/src/lib.rs, tagged_trait.rs, tagged_impl.rs")], ["registered statics", "trait impls of the expanded program"])
prop("M03", "A forgotten attribute on an impl does not compile",
 "An implementation of a typetag trait that lacks the attribute, or carries one of a narrower mode than the trait, is rejected at compile time instead of silently missing from the registry.",
 ["programs"], "every mode of trait crossed with every mode of impl", "One compile-fail file covers one combination.",
 ["impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"], [("hidden required methods", "augment_trait / augment_impl")], ["compiler diagnostics"])
prop("M04", "Unsupported items are refused at compile time",
 "Inherent impls, traits with associated consts or (not Sized-bound) associated types, generic traits and impls in deserializing modes, unnameable self types without an explicit name, and items that are neither trait nor impl are refused with a diagnostic from the macro; the supported neighbours (generic traits and impls for serialize, associated types bounded by Self: Sized) are accepted.",
 ["programs"], "every item shape and mode", "A few compile-fail files sample single shapes.",
 ["impl/src/parse.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"], [("parse-time checks", "impl/src/parse.rs"), ("generic checks", "tagged_trait.rs, tagged_impl.rs expand")], ["compiler diagnostics"])
prop("M05", "Expansion is hygienic",
 "The macros expand to code that compiles and keeps its meaning whatever names are in scope at the call site: shadowed prelude types, traits, functions and macros, missing std or missing preludes, user types, modules and constants with clashing names, strict lints, several traits in one module and traits in functions or with any visibility. Names the crate reserves are excepted: the path `typetag`, names starting with typetag, Typetag, TYPETAG or two underscores, and the names of primitive types.",
 ["programs"], "every surrounding scope", "One test shadows nothing but Result-like names; unusual scopes are otherwise unexplored.",
 ["impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs", "src/private.rs"], [("absolute paths through the private re-exports", "impl/src/*, src/private.rs")], ["compiler diagnostics", "name resolution of the expansion"])
prop("M06", "Deserializable objects never gain Send or Sync they lack",
 "Box<dyn Trait + markers> is deserializable exactly for the marker sets implied by the Send and Sync supertraits spelled on the trait itself, and never for a marker its supertraits do not imply, so that no value of a type that is not Send or Sync can be obtained as one by deserialization.",
 ["programs"], "every combination of supertraits and object markers", "One test module names a few positive combinations; negatives are not tested.",
 ["impl/src/tagged_trait.rs"], [("strictest object", "impl/src/tagged_trait.rs expand, has_supertrait"), ("Strictest", "src/private.rs")], ["trait impls of the expanded program"])
prop("M07", "Attribute grammar",
 "The attribute arguments select the documented representation: none is external, tag is internal, tag with content is adjacent, default_variant and deny_unknown_fields attach as documented in either order with optional trailing commas, and the given strings are the ones used on the wire; any other, repeated, misplaced or incomplete argument is refused at compile time.",
 ["programs"], "every argument list", "Compile-fail tests do not cover the argument grammar; accepted lists are sampled.",
 ["impl/src/parse.rs"], [("argument parser", "impl/src/parse.rs impl Parse for TraitArgs / ImplArgs")], ["compiler diagnostics", "calls made by the expansion"])
prop("M08", "Everything is safe code",
 "The crate contains no unsafe code and the macros add none of their own beyond the registration supplied by the registry crate, so no input, program or schedule can cause undefined behaviour through typetag itself.",
 ["programs", "inputs"], "all code paths", "Tests cannot show absence of unsafe code.",
 ["src/lib.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"], [("safe Rust throughout", "src, impl/src")], ["unsafe blocks in the crate and in expansions"])
prop("M09", "First use initialises the registry safely and completely",
 "The registry of a trait is built at most once for observers, from every registration of the program, is complete before any lookup reads it whichever threads race on first use, and is never modified afterwards.",
 ["schedules", "histories"], "every interleaving of first and later deserializations", "Tests are effectively single threaded on first use.",
 ["impl/src/tagged_trait.rs", "src/private.rs"], [("once cell", "impl/src/tagged_trait.rs static_registry")], ["accesses to the registry static"])
prop("M10", "The annotated item keeps its meaning",
 "The trait or impl the user wrote is emitted with all of its attributes, documentation, lint levels, conditional compilation, visibility, safety, generics, supertraits, where clauses and items unchanged, and means what it would mean without the attribute, apart from being serializable or deserializable; nothing but hidden items under reserved names is added to it.",
 ["inputs"], "every trait and impl the macros accept", "Tests use a handful of plain traits and look only at what is read and written.",
 ["impl/src/parse.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"], [("parsing of the item", "impl/src/parse.rs Input"), ("items added", "impl/src/tagged_trait.rs augment_trait, impl/src/tagged_impl.rs augment_impl")], ["acceptance or refusal of programs that observe each part"])
prop("X01", "Round trip through any self-describing third-party format",
 "A trait object written with any third-party self-describing format and read back with the same format yields an equal concrete value.",
 ["inputs", "configurations"], "every value, every third-party format", "Tests use serde_json and a few values.",
 ["src/lib.rs"], [("composition of writer, format and reader", "src")], ["value equality after round trip"])
prop("X02", "Bounded recursion on nested input",
 "Deeply nested input is rejected with an error before it can exhaust the stack while being buffered or dropped.",
 ["inputs"], "every nesting depth", "No test nests deeply.", ["src/content.rs"], [("recursion of capture and drop", "src/content.rs")], ["stack use"])
prop("X03", "Registrations from every linked crate are visible",
 "Implementations registered in any crate linked into the program, including dynamically loaded ones on supported platforms, are found by deserialization.",
 ["programs", "configurations"], "every link arrangement and platform", "Tests are single-crate.", ["impl/src/tagged_impl.rs"], [("inventory submit", "impl/src/tagged_impl.rs")], ["linker output"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
