#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
S = "src/aspsim/"
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, note, technique, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=note, technique=technique, state=state or [], observe=observe or []))


TRACE = "TLA+ specification, TLC model checking, and TLC judging traces recorded from the real code"

P("P01", "Microphone signals are the exact convolution sum of the sources",
  "At every sample of a simulation, each microphone channel equals the sum over all sources and their channels of the "
  "source signal convolved with the impulse response of that path, with the source silent before it starts. "
  "This holds for every buffer size, chunk size, block size, number of arrays and channels, path type and length of response, "
  "and regardless of where the storage is rolled over.",
  "configurations", "all valid combinations of arrays, paths, buffer, chunk and block sizes, start-before-0 and run lengths, with arbitrary source signals",
  "The tests run a handful of fixed set-ups and compare against each other with a tolerance; the set of configurations and rollover positions is unbounded.",
  [S + "simulator.py", S + "array.py", S + "processor.py"],
  [("propagation of sources to microphones", S + "simulator.py:Propagator"), ("rollover of the signals", S + "processor.py:AudioProcessor.progress / ArrayCollection rollover")],
  "Exact comparison of every sample with AspSim for random configurations with dyadic data; the finite buffer realisation (AspSimBuf) is model-checked "
  "against the ideal machine for all small configurations. Trusts that the recorder observes what the simulator computes (also observed through a processor).",
  TRACE, observe=["signals as a processor sees them", "recorded signals"])

P("P02", "Processors run once per block, causally, and act one block later",
  "A processor with block size b is called exactly once for each b samples, with the samples up to the current one available and no future sample visible, "
  "and what it writes to a controllable source is what that source plays in the following b samples. "
  "No block is skipped, repeated or played at another time, for any relation between block size, buffer, chunk and run length.",
  "schedules", "all interleavings of block boundaries, rollovers and run end",
  "The tests use a few block sizes with generous buffers; an off-by-one at a rollover or an end of run needs a specific relation between the sizes.",
  [S + "simulator.py", S + "processor.py"],
  [("processor schedule", S + "simulator.py:Simulator._run"), ("processor wrapper", S + "processor.py")],
  "All behaviours of AspSimBuf for small constants; finished model behaviours are replayed in the simulator, and random runs are judged call by call.",
  TRACE, observe=["what a processor is shown at each call"])

P("P03", "Signal history survives buffer rollover unchanged",
  "What a processor sees of past samples of any signal never changes when the storage is rolled over: a sample, once observed, has the same value at each later call in "
  "which it is still inside the buffered history. This includes signals that the processor created itself, and blocks it has written ahead.",
  "histories", "all sequences of calls and rollovers",
  "Existing tests look at recorded output, not at the history at each call, and with few rollovers.",
  [S + "processor.py", S + "simulator.py"], [("rollover", S + "simulator.py / processor.py: reset of signal buffers")],
  "As P02, with short chunks so that most samples are observed across several rollovers.", TRACE,
  observe=["window of the last samples of each signal at each call"])

P("P04", "Recorded signals are exactly the requested samples of the signal",
  "A recorder of a signal contains exactly the samples of the requested intervals and channels, each at its own index and with the value the signal had, and nothing elsewhere. "
  "This holds for arbitrary increasing intervals, adjacent ones included, and irrespective of rollovers and block sizes.",
  "configurations", "all interval lists, channel selections, buffer geometries and run lengths",
  "Tests compare two recorders of the same run or a few fixed intervals; which samples are due at a rollover depends on the joint geometry.",
  [S + "diagnostics/core.py", S + "diagnostics/diagnostics.py"], [("saving of intervals", S + "diagnostics/core.py:Logger.save_data"), ("RecordSignal", S + "diagnostics/diagnostics.py")],
  "RecTrue and RecDone are invariants of AspSimBuf for all small configurations; random recorders are compared sample by sample.", TRACE, observe=["get_output of a recorder"])

P("P05", "Each due export is written once, correctly named and complete",
  "For each requested export index that the recorder reaches, every chosen export function writes one file whose name carries the recorder and the index, and whose contents are exactly what was "
  "recorded before that index (after preprocessing). No other files appear, and without an output folder nothing is written.",
  "configurations", "all export specifications (periodic, lists, default), functions, preprocessing and run geometries",
  "Tests check a few evenly spaced exports of one function; the order in which saving, rollover and export happen matters only for particular index combinations.",
  [S + "diagnostics/core.py", S + "diagnostics/diagnosticscollection.py", S + "diagnostics/plot.py"],
  [("export dispatch", S + "diagnostics/core.py:Logger.dispatch")],
  "ExportTrue/RecDone in AspSimBuf; the files of random runs are read back and compared with what TLC derives.", TRACE, observe=["files in the output folder"])

P("P06", "State snapshots and instant exports show the state at their index",
  "A state recorded with a period is sampled exactly at the multiples of that period, and shows the processor's state after all blocks that end at or before that sample, for scalar, vector and matrix "
  "attributes found by any attribute expression. Instant exports produce one file per index with the state at that index.",
  "schedules", "all combinations of periods, block sizes, rollovers and attribute paths",
  "Tests cover one recorder with matching periods.", [S + "diagnostics/core.py", S + "diagnostics/diagnostics.py"],
  [("RecordState, RecordFilter", S + "diagnostics/diagnostics.py"), ("StateDiagnostic / InstantDiagnostic", S + "diagnostics/core.py")],
  "SnapDone in AspSimBuf; random recorders compared value by value.", TRACE, observe=["get_output and files of state recorders"])

P("P07", "Keeping only the last export never loses or mixes up exports",
  "With the option to keep only the last export, the folder always contains exactly the newest export of that recorder, and exports of other recorders, however similar their names, stay untouched. "
  "At no point during a run is a finished export gone before a newer one is there.",
  "histories", "all sequences of exports of recorders with related names",
  "No test removes exports; whether the wrong file is deleted depends on names that are prefixes of each other.",
  [S + "diagnostics/core.py", S + "fileutilities.py"], [("removal of earlier exports", S + "diagnostics/core.py, fileutilities.py:find_all_earlier_files")],
  "The folder is listed at each processor call and judged by TLC; names with shared prefixes and numbers are used on purpose.", TRACE, observe=["folder listing at each call"])

P("P08", "Source streams do not depend on how they are requested",
  "For every source, the samples obtained in any sequence of requests are the same, one after the other, as those obtained in one request of the same total length. "
  "Each request returns exactly the number of samples asked for, in all channels; changing the power of a source rescales the following samples and does not disturb the stream.",
  "programs", "all partitions of a stream into requests, interleaved with changes of power",
  "Tests request equal blocks from a few sources.", [S + "signal/sources.py"], [("get_samples of each source", S + "signal/sources.py")],
  "Stream.tla describes a stream with a read position; every partition of small streams is generated and random programs are judged by TLC.", TRACE, observe=["get_samples"])

P("P09", "Sources produce the signal they are specified to produce",
  "Sine, multi-sine, pulse-train, sequence, maximum-length, Gold-sequence and counter sources produce exactly the samples their parameters define, including power or amplitude, period, delay, repetition and "
  "end behaviour. A loaded sound file has the samples, the number of channels and the sample rate asked for. Noise sources have the requested power, band, correlation and channel independence within statistical bounds.",
  "inputs", "all parameters of all sources", "Tests look at the power of noise and a few lengths.", [S + "signal/sources.py"], [("sources", S + "signal/sources.py")],
  "Register.tla proves full period and balance of the linear feedback registers for all tabulated orders that TLC can enumerate; values are judged by SourcesTrace. Noise is judged by statistical bounds with error probability below 1e-6.",
  TRACE, observe=["get_samples"])

P("P10", "Moving arrays are heard with the responses of their current position",
  "When an array moves, its position and the responses of all paths it belongs to follow its trajectory at every multiple of the update frequency, and each sample is propagated with the responses of the positions at the last update. "
  "Paths between static arrays are unaffected, and the position a processor sees is that of the last update.",
  "schedules", "all combinations of update frequency, buffer geometry, and several moving arrays",
  "Tests compare a moving microphone with a moving source, which can be wrong in the same way.", [S + "simulator.py", S + "array.py", S + "room/roomimpulseresponse.py"],
  [("position updates", S + "simulator.py:Propagator.update / array.py:update"), ("trajectory", S + "room/trajectory.py")],
  "Moving.tla gives the times whose positions each sample has to use; each sample of the code is matched with the update times that explain it, by responses from set-ups in which nothing moves, and TLC compares.", TRACE, observe=["recorded contributions and microphone signals", "positions seen by a processor"])

P("P11", "Trajectories pass their points at the specified times",
  "A linear trajectory visits its points in order and returns to the first, with constant speed or with equal time for each segment, and repeats with exactly its period; a circular trajectory rotates and changes radius with its two periods about its centre. "
  "The position depends only on the time asked for, not on the order of asking or on plotting, and a collection reports the positions of its parts in order.",
  "inputs", "all point lists, speeds, modes, periods and query orders", "Tests cover a single segment.", [S + "room/trajectory.py"], [("current_pos", S + "room/trajectory.py")],
  "Walk.tla describes movement on a rational grid; positions of the code at rational times are judged by TLC.", TRACE, observe=["current_pos"])

P("P12", "Sessions are reused exactly when they fit, and reproduce the simulation",
  "A stored session is loaded if and only if its geometry, path types, room and all other settings that affect the impulse responses agree with the requested ones, and otherwise a new session is stored without touching existing ones. "
  "A simulation that uses a loaded session behaves exactly as one that computed the responses, also where arrays move, and a saved session can be loaded back without loss.",
  "histories", "all sequences of saves, loads and crashes while saving, with varying settings, torn files and unrelated folders", "Tests save and load one session with one change.",
  [S + "saveloadsession.py", S + "array.py", S + "configutil.py", S + "simulator.py"], [("session search", S + "saveloadsession.py"), ("equality of settings", S + "configutil.py, array.py:prototype_equals")],
  "Sessions.tla has the folder as state and creation, saving, crashes and loads as actions; histories of the model and random ones are executed on a real folder, with crashes before each write, and TLC decides which session may be used.", TRACE, observe=["session folder", "loaded arrays"])

P("P13", "Each path gets the response that its type prescribes",
  "Between each source and microphone there is exactly one response per channel pair, with the type explicitly chosen for that pair or else the default of the arrays and room; absent paths are zero, direct paths identity, "
  "given paths exactly as given, random ones of the set length, and simulated ones those of the right pair of positions. The order in which arrays are added or types and paths are set does not matter, except that later settings replace earlier ones; a collection of arrays brings its types and given paths along.",
  "programs", "all sequences of set-up operations", "Tests use two or three arrays with one change.", [S + "array.py", S + "simulator.py", S + "room/roomimpulseresponse.py"],
  [("path types and paths", S + "array.py:ArrayCollection"), ("computation of responses", S + "room/roomimpulseresponse.py:get_responses")],
  "Setup.tla is a state machine of set-up operations; random and exhaustive short programs are executed and the resulting collection judged by TLC. Simulated responses are compared with those of each pair of positions on its own.", TRACE, observe=["paths of a created simulator"])

P("P14", "Set-ups and simulators are independent of each other and reproducible",
  "Simulators created from the same set-up do not influence each other or the set-up: running one, or changing settings afterwards, changes neither the others nor later ones. "
  "Equal set-ups produce equal results.",
  "programs", "all interleavings of changes of a set-up, creating and running simulators", "Tests create one simulator per set-up.",
  [S + "simulator.py"], [("copying of settings, arrays and sources", S + "simulator.py:SimulatorSetup.create_simulator")],
  "Copies.tla tracks which settings each simulator must see; programs are executed and compared with a fresh set-up.", TRACE, observe=["results of runs"])

P("P15", "Phase counters announce each phase once and at the right sample",
  "At every sample a phase counter is in the phase whose interval contains that sample, where phases follow each other in order with their given lengths, phases of no length never occur, and an unlimited phase never ends. "
  "It reports the first sample of each phase as such exactly once, and after the last phase it is in no phase.",
  "inputs", "all phase specifications and ways to advance", "Tests use fixed phases.", [S + "counter.py"], [("PhaseCounter", S + "counter.py")],
  "Phases.tla; all small specifications exhaustively plus random ones.", TRACE, observe=["phase state after each step"])
P("P16", "Event counters fire events exactly at their samples",
  "An event counter reports an event at exactly the samples that are congruent to its offset modulo its frequency, in the order of definition, for any number of events. "
  "This includes events added or redefined while counting, which count from the next sample on.",
  "inputs", "all event specifications and additions during counting", "Tests use a single event.", [S + "counter.py"], [("EventCounter", S + "counter.py")],
  "Events.tla; all small specifications exhaustively plus random ones.", TRACE, observe=["events after each step"])
P("P17", "Block arithmetic partitions every range correctly",
  "Splitting a number of samples into blocks, for any start index, block size and buffer size, gives non-empty blocks that never cross a block or buffer boundary and add up to exactly the requested number. "
  "Block ranges that end at a given index are contiguous, of the given size, and start as early as allowed.",
  "inputs", "all integers in the domain", "Tests draw a few random numbers.", [S + "utilities.py", S + "processor.py"], [("block utilities", S + "utilities.py:calc_block_sizes, processor.py:calc_block_sizes_with_buffer, block_process_until_index")],
  "Blocks.tla defines the partitions; the code is compared exhaustively for a range of arguments.", TRACE, observe=["return values"])

P("P20", "Source contributions are the separate parts of each microphone",
  "When contributions are recorded, the contribution of each source to each microphone is that source alone convolved with its responses, and at each sample the contributions add up to the microphone signal.",
  "configurations", "as P01", "Tests look at one set-up.", [S + "simulator.py"], [("contributions", S + "simulator.py:Propagator")],
  "As P01.", TRACE, observe=["signals named source~microphone"])

P("P23", "The array collection reports the arrays it was given",
  "Names, order, groups, channel counts, positions, reference types and metadata of an array collection are exactly those of the arrays that were added, for any order and grouping, and iterating over sources, microphones or subsets "
  "gives each array exactly once in the order of addition.",
  "programs", "all sequences of additions, groupings and queries", "Tests query few arrays.", [S + "array.py"], [("ArrayCollection, Array", S + "array.py")],
  "As P13 with Setup.tla.", TRACE, observe=["queries of the collection"])
P("P24", "Attribute expressions reach exactly the object they describe",
  "An expression of attribute names, integer indices and string keys is resolved to the same object as the corresponding chain of Python operations, for any nesting.",
  "inputs", "all expressions and object trees", "Tests evaluate two expressions.", [S + "diagnostics/core.py"], [("attritemgetter", S + "diagnostics/core.py")],
  "AttrPath.tla walks an object tree; random trees and all short expressions.", TRACE, observe=["resolved objects"])

exec((V / "tools" / "props_more.py").read_text()) if (V / "tools" / "props_more.py").exists() else None

NOT_APPLICABLE += [
    dict(property="P90", reason="Whether the image-source responses are numerically accurate is decided inside pyroomacoustics and is a matter of floating point accuracy, "
         "which a TLA+ specification over integers cannot express; the parts of it with a discrete meaning are covered by P10, P13 and P27."),
]
P_NA = [
    dict(id="P90", title="Image-source impulse responses are numerically accurate",
         statement="Impulse responses computed for a reverberant room approximate the image-source model of that room with the requested reverberation time.",
         over="inputs", text="all rooms, positions and reverberation times", why="Tests compare a few rooms with a tolerance.",
         files=[S + "room/roomimpulseresponse.py"], mech=[("ism responses", S + "room/roomimpulseresponse.py")], state=[], observe=[]),
]


def prop_line(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = p["state"]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"].split(), "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


PROPS = sorted((p for p in PROPS if (V / "checks" / (p["id"].lower() + ".py")).exists()), key=lambda p: p["id"])
(V / "properties.jsonl").write_text("".join(json.dumps(prop_line(p)) + "\n" for p in PROPS + P_NA))
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in PROPS],
    "not_applicable": NOT_APPLICABLE,
    "notes": "TLA+ with TLC. No hooks are needed in the code: everything is observed through its public interface. See DESIGN.md.",
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(PROPS), "properties")
