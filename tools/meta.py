"""writes properties.jsonl and MANIFEST.json (keeps both in step)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note="", technique=None, level="exploration",
         state=(), na=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None},
              "_note": note, "_technique": technique, "_level": level, "_na": na})


NOTE = ("Seeded simulation of the real code: every run is repeatable from its seed, and a violation is minimised to a "
        "replay file. Assurance is that of the runs explored, whose number and faults the evidence reports; not a proof. ")

# ------------------------------------------------------------ evolution
EV = ["yuca/cmaes.py", "yuca/evolve.py"]
prop("E01", "Every agent of a generation is evaluated and credited with its own fitness",
     "In every generation of an evolutionary search, with any number of workers, every member of the population is "
     "evaluated exactly as many times as replicates were asked for, all members under the same random stream and each "
     "replicate under a different one. The fitness logged for a generation (mean, max, min, standard deviation) and "
     "the order of its elites are those of the rewards the evaluations gave to those very agents, whatever the speed, "
     "stalls or message order of the workers. In a coevolution search each agent is evaluated under the rule it carries, and a "
     "search logs exactly the generations it was asked for, unless fitness converged.",
     ["schedules", "fault_sequences", "configurations", "inputs"],
     "any interleaving of the mantle and 0-7 workers, with stalls, slow ranks and clock jumps; any population size "
     "(also smaller than the number of workers, or not divisible by it), replicates, generations, selection mode, seed",
     "No test runs a search at all, and none starts workers: the division of the population among ranks and the "
     "collection of results depend on worker count, population size and message timing.",
     EV + ["yuca/params_agent.py", "yuca/cppn.py"],
     [("mantle divides the population, sends it to the arms and collects fitness", "yuca/cmaes.py CMAES.mantle"),
      ("arm evaluates and returns fitness", "yuca/cmaes.py CMAES.arm"),
      ("coevolution: rule and pattern parts of the params", "yuca/cmaes.py CMACES")],
     ["rewards returned by the environment to each evaluation", "the log file of the search"],
     NOTE + "MPI is a reliable, per-pair ordered stand-in.")
prop("E02", "An evolution run finishes or fails as a whole",
     "Started from its command line with any number of workers, an evolution run without faults ends with exit status "
     "0 after starting exactly the workers asked for, with a log for every seed and no message left undelivered. No "
     "schedule or delay makes it hang. When a worker dies or the log cannot be written, the program ends with a "
     "failure status instead of hanging or reporting success.",
     ["schedules", "fault_sequences", "crash_points", "configurations"],
     "worker counts 0-6, populations smaller than workers, all search modes, environments and universes, several seeds; "
     "process crash at any step of any rank, disk errors and full disks on the log, stalls and clock jumps",
     "No test starts the program with workers; deadlocks, orphaned messages and hidden failures show only under certain "
     "worker counts, schedules and crash points.",
     EV + ["yuca/wrappers/halting_wrapper.py", "yuca/cppn.py"],
     [("fork into mpirun and back", "yuca/cmaes.py CMAES.mpi_fork / yuca/evolve.py"),
      ("stop message to the arms", "yuca/cmaes.py CMAES.mantle")],
     ["exit status of every process", "logs directory", "messages sent and received"],
     NOTE + "mpirun is modelled: it starts all ranks, and kills the job and fails when one dies.")
prop("E03", "A search is a function of its inputs, not of schedule, clock or workers",
     "Two searches with the same arguments and seeds leave the same logs and the same best universes, whatever the schedule, the "
     "clocks, the process ids and the operating system's entropy. Changing the number of workers between any two numbers above "
     "one, or between none and one, does not change them either.",
     ["schedules", "configurations", "fault_sequences"],
     "pairs of runs of one search that differ in schedule, worker count, wall clock, entropy, start delays, stalls and "
     "clock jumps; stub and real environments; every universe class",
     "A test would have to compare whole searches across schedules and worker counts; the suite runs none.",
     EV + ["yuca/utils.py", "yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", "yuca/ca/continuous.py"],
     [("seeding of every rank and every evaluation", "yuca/cmaes.py CMAES.mantle, CMAES.get_fitness; yuca/utils.py seed_all")],
     ["logs and saved configs of two runs"],
     NOTE + "Comparison is exact, apart from paths and kwargs that name the run.")
prop("E04", "Selection keeps the fittest, carries elites over and saves the best rule",
     "The elites logged for a generation are members of the population evaluated in it, as many as an eighth of the population plus one; "
     "greedy selection and the final generation take the fittest ones, best first, and proportional selection takes no "
     "member twice. The logged distribution is the mean and covariance of those elites, the first half of them is evaluated again in the next generation, whose other members are drawn from that distribution, "
     "and the search stops early only on a converged population after the seventh generation. The config saved at the end and the elite configs in the log restore "
     "universes with exactly the parameters of those elites.",
     ["inputs", "configurations", "schedules"],
     "any population size, selection mode, number of generations, fitness landscape (including ties and converged "
     "populations), search mode and worker count",
     "It relates the log to every evaluation of a whole search; no test runs one.",
     EV,
     [("selection, update of the distribution, resampling", "yuca/cmaes.py CMAES.rank_population, CMAES.update_population"),
      ("elite configs", "yuca/cmaes.py get_elite_configs, save"),],
     ["log file", "saved config restored in a fresh process", "parameters given to the environment"],
     NOTE)
prop("E05", "Progress of a search survives crashes and is never torn",
     "At every moment of a search, and after a crash, full disk, disk error or power failure at any point, every log and saved "
     "config present under its final name loads completely and is internally consistent. While the machine stays up, a log "
     "never loses a generation it had, and every generation finished before the current evaluation is in it. A search that ends "
     "normally has left its complete log and its best config.",
     ["crash_points", "fault_sequences", "schedules"],
     "crashes before or after any file operation of any rank, torn and short writes, ENOSPC and EIO, power failures that drop "
     "unsynced data, concurrent readers",
     "Tests neither crash a search nor inspect the disk while it runs.",
     EV + ["yuca/utils.py", "yuca/configs.py"],
     [("atomic replacement of logs and configs", "yuca/utils.py atomic_write, save_npy"),
      ("saving after each generation", "yuca/cmaes.py")],
     ["bytes on the simulated disk at every step"],
     NOTE + "The disk model journals metadata in order; unsynced data may be lost or torn at a power failure.")
prop("E06", "A search resumed from a log goes on from that log's last elites",
     "Given the log of a finished or crashed search, a new search started from it runs with any number of workers and any "
     "population size, evaluates the log's last elites in its first generation (as many as its own elite count), and "
     "centres its first update on their mean. It leaves a log with exactly the generations it was asked for.",
     ["histories", "crash_points", "configurations"],
     "logs of any search mode and length, left by complete searches and by ones crashed or power-failed at any point; "
     "resumed with another population size, worker count and seed",
     "Needs two searches in sequence with a crash in between; no test resumes.",
     EV,
     [("input_filepath handling", "yuca/cmaes.py CMAES.__init__, CMAES.initialize_population")],
     ["parameters evaluated by the resumed search", "its log"],
     NOTE)
prop("E07", "Searches over several seeds do not influence one another",
     "The log and best universe a multi-seed search leaves for one seed are those it would have left had the other seeds (apart from "
     "the first, which also makes the universe) not been asked for, also when the search starts from a log. Schedule, worker "
     "count (among counts above one), stalls and clocks make no difference. The momentary step size of variable-step universes is exempt.",
     ["histories", "configurations", "schedules"],
     "any list of 2-3 seeds, any search mode, converging and not converging, real and stub environments, with and without an initial log",
     "State left over from one seed's search shows only in the next seed's; no test runs two.",
     EV,
     [("reset between seeds", "yuca/cmaes.py CMAES.mantle / initialize_population")],
     ["logs and configs of two runs"],
     NOTE)

prop("E08", "The search a command line asks for is the one that runs, in every process",
     "Whatever options yuca.evolve is given, in whatever order and form, every process steps the kind of universe asked for on "
     "grids of the size, batch, channels and precision asked for, whatever searches the process ran before; the search's logs and best universes are those of the same "
     "search put together by hand from the library, and each log records the options, the universe, the wrapper and the "
     "command itself. Recorded findings: -dt has no effect, nor has 'orbium' or 'geminium' in the tag.",
     ["configurations", "schedules"],
     "any combination of the options (all universes, wrappers, search modes, channels, kernels, borders, precisions, initial "
     "logs and universe files), after none or one earlier search in the same process, 0-4 workers, any schedule, stalls and clock jumps",
     "The options pass through the parser, a relaunch under mpirun, three dispatch functions and several constructors; no "
     "test runs a combination through all of them in every rank.",
     EV + ["yuca/ca/common.py", "yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py"],
     [("option parsing and dispatch", "yuca/evolve.py evolve / universe_search / pattern_search / coevolve"),
      ("relaunch with the same arguments", "yuca/cmaes.py CMAES.mpi_fork")],
     ["logs and configs of two runs", "grids given to universes in every process"],
     NOTE)

# ------------------------------------------------------------ configs
CF = ["yuca/configs.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/code.py",
      "yuca/lenia.py", "yuca/metaca.py", "yuca/random_step_ca.py", "yuca/kernels.py"]
prop("C01", "A saved universe restored in a fresh process behaves identically",
     "After any history of changes (rules, kernels, parameters, step size, random re-initialisation, running, loading "
     "configs), a universe of any class saved to a config and restored by path, by bare name in the config directory, or by constructor argument in "
     "a fresh process has the same parameters, growth functions, step size, kernel radius and channels, and produces the same "
     "grids from the same start. Saving and restoring again changes nothing. The momentary step size of variable-step universes is exempt; "
     "reaction-diffusion universes agree to float precision.",
     ["histories", "inputs", "configurations"],
     "every universe class; random sequences of public mutators, runs and loads; several ways of saving and restoring; restoring into fresh and used universes",
     "Tests restore shipped configs only; a lost field shows only after a mutation that set it.",
     CF,
     [("config description and loading", "make_config / load_config / restore_config / save_config of each universe class")],
     ["frames, update values, parameters of the original and the restored universe"],
     NOTE + "NCA networks of the non-functional mode, whose weights no config holds, are not generated.")
prop("C02", "Loading a config overrides whatever the universe was before",
     "A universe that loads a config after any history behaves exactly as a fresh universe that loads the same config: "
     "same parameters, channels, kernels, growth, persistence, step size and grids. Configs that name no constructor "
     "arguments (hand-written and shipped ones) keep the universe's own channel numbers and convolution mode.",
     ["histories", "inputs"],
     "every universe class; any history before loading; configs made by a universe, literal ones and shipped ones; by object and by file; loaded once or twice",
     "Tests load into fresh universes only.",
     CF, [("load_config of each class", "yuca/ca/continuous.py, yuca/ca/neural.py, yuca/ca/reaction_diffusion.py, yuca/metaca.py")],
     ["frames and parameters of the used and the fresh universe"], NOTE)
prop("C03", "Universes that share a config or a process are isolated from each other",
     "Changing, running or re-initialising one universe never changes another universe in the same process, even when "
     "both were loaded from the same config object or one from the other's config. Loading or running never changes the "
     "config object given, and changing a config a universe returned never changes the universe.",
     ["histories", "schedules"],
     "2-4 universes loaded from shared literal, made or loaded configs; interleaved mutators and runs on any of them; scribbling on returned configs",
     "Aliasing shows only when two universes are alive and one is changed afterwards.",
     CF, [("copies of config contents", "make_config / load_config of each class")],
     ["behaviour of every universe before and after each operation on another", "the config object"], NOTE)
prop("C04", "Saving a config is all or nothing",
     "Saving a config either puts the complete new config in place or leaves the previous file as it was, whatever crash, "
     "torn or short write, full disk, disk error or power failure happens. A concurrent reader always loads a complete config, old or new, and with "
     "several concurrent savers it is one saver's config, not a mix. A save that could not be completed raises an error, and one that "
     "returned is found by later readers.",
     ["crash_points", "fault_sequences", "schedules"],
     "faults at every file operation of a save; 1-2 savers and up to 3 readers; power failure afterwards; several path forms",
     "Tests neither inject disk faults nor read while saving.",
     ["yuca/utils.py", "yuca/configs.py", "yuca/ca/continuous.py", "yuca/ca/reaction_diffusion.py", "yuca/ca/neural.py"],
     [("atomic replacement", "yuca/utils.py atomic_write / save_npy")],
     ["file contents at every step and after restart"], NOTE)

# ------------------------------------------------------------ zoo
ZO = ["yuca/zoo/librarian.py"]
prop("L01", "The zoo returns exactly what was stored",
     "A pattern stored in the zoo under any name is found in the index, by this and by later processes, under the name it was stored as, and "
     "loads with the same values, shape and type and with the config name, notes, entry point and commit hash given, character for character. "
     "Storing under a name already used, however often, keeps every earlier entry as it was. Every librarian of a zoo lists its entries in the same order. "
     "Cropping gives the cells between the given rows and columns, as a pattern of its own.",
     ["inputs", "histories"],
     "arrays of any shape, type and memory layout; metadata texts with quotes, separators, line breaks, unicode; any sequence of store, load and re-index over several processes",
     "No test stores a pattern.", ZO,
     [("numbered entries, csv metadata", "yuca/zoo/librarian.py Librarian.store / load / update_index")],
     ["loaded arrays and metadata"], NOTE)
prop("L02", "Concurrent stores to one zoo lose and mix nothing",
     "When several processes store patterns at the same time, under the same or different names, every store that returns "
     "leaves its own entry, with its own pattern and its own metadata, and no earlier entry changes. Readers at any time "
     "only ever see entries whose pattern and metadata belong together.",
     ["schedules"], "2-5 storing processes, up to 2 readers, any interleaving of their file operations, names shared or not, entries already there",
     "The race is between separate processes at file-system level; no test has two.", ZO,
     [("exclusive creation of the numbered entry", "yuca/zoo/librarian.py Librarian.store")],
     ["the zoo directory as seen by fresh librarians"], NOTE)
prop("L03", "Crashes and disk faults while storing never damage the zoo",
     "Whatever crash, disk error, full disk, torn write or power failure hits a process storing a pattern, a librarian started afterwards lists only "
     "entries that load completely with matching metadata, and still has every entry stored before. A store that returned "
     "is there after a process crash; a store that could not be completed raises and leaves nothing in the zoo (as long as what it began can be removed); and storing works again afterwards.",
     ["crash_points", "fault_sequences", "schedules"],
     "faults at any file operation of any storing process, 1-3 processes, power failure afterwards, stores after recovery",
     "No test crashes or fails a store.", ZO,
     [("order in which pattern and metadata become visible", "yuca/zoo/librarian.py Librarian.store / update_index")],
     ["the zoo directory as seen by fresh librarians"], NOTE)


def load_more():
    path = os.path.join(HERE, "tools", "more.py")
    if os.path.exists(path):
        with open(path) as f:
            exec(compile(f.read(), path, "exec"), {"prop": prop, "NOTE": NOTE})


PY = "/opt/venv/bin/python -B run.py"
TECH = "deterministic simulation with seeded schedules and fault injection"


def main():
    load_more()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import sim.runner\"",
         "checks": [], "not_applicable": []}
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": f"{PY} {p['id']}",
                                "thorough_cmd": f"{PY} {p['id']} --tier thorough",
                                "evidence_file": f"evidence/{p['id']}.json",
                                "technique": p["_technique"] or TECH, "level": p["_level"], "level_note": p["_note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
