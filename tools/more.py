# properties of animations, training, analysis, evaluation and the viewer
UT = ["yuca/utils.py"]
prop("G01", "An animation shows exactly the grids the universe goes through",
     "An animation of a universe shows, in order and in the right colours, the grids that universe goes through from the start it was "
     "given: one frame for every `speedup` steps, up to the number of steps asked for or until everything has vanished, in a looping gif "
     "named after its tag in the directory asked for. When there is nothing to show, no gif is left. Files that others keep in the same directories are "
     "neither shown, deleted nor overwritten, and no frame is left behind.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all universe classes, 1-5 channels, grid sizes, step counts and speedups, inverted or not, tags and directories with foreign "
     "files (also images) in them, clock and directory order, several animations one after another, clock jumps",
     "The tests make one gif and check that it exists; order, number and content of frames with other steps, speedups, channels and "
     "leftover files are never looked at.",
     UT, [("frames are written, collected and removed", "yuca/utils.py save_fig_sequence / make_gif")],
     ["the gif file, decoded frame by frame", "the directories afterwards"], NOTE +
     "The picture due for a grid is computed independently from the recorded grid.")
prop("G02", "Animations made at the same time do not mix",
     "When several processes make animations at the same time, with the same tag and directories and at the same clock, each one that finishes "
     "has its own complete gif with its own frames only. The failure of one, by a crash, a disk error or a full disk, changes nothing for the "
     "others.",
     ["schedules", "crash_points", "fault_sequences"],
     "2-4 processes, any interleaving of their file operations, same or different tags and directories, crashes, torn writes, EIO, ENOSPC, stalls, clock jumps",
     "No test makes two animations at once, and names are derived from the clock.",
     UT, [("private directory of frames, unique name of the gif", "yuca/utils.py save_fig_sequence / make_gif")],
     ["gif files of all processes, decoded"], NOTE)
prop("K01", "Cloning keeps the best network, and never loses a checkpoint",
     "Cloning a universe into a neural one saves, for every universe it was asked to clone, the network of the training step with the lowest error "
     "in a file of its own, of the size asked for (growing at each new try, up to the largest allowed), sensing the neighborhoods that universe senses, "
     "trained on that very universe and the same whatever the clock, process ids and system entropy. At every moment of the run, "
     "and after any crash, disk error or power failure, the file is absent or loads completely, and an earlier checkpoint is there until it is replaced.",
     ["crash_points", "fault_sequences", "schedules", "histories", "inputs"],
     "1-3 source universes (shipped ones or files of any name, any edges), iterations, steps and batch sizes, several clones in a row, concurrent readers, crash at any file operation, torn and short writes, EIO, ENOSPC, power failure",
     "The tests run one clone for a step or two and look for a line of output; what is in the file and when it is written is never checked.",
     ["yuca/clone.py", "yuca/utils.py"],
     [("training loop and checkpoint", "yuca/clone.py clone_from_ca"), ("atomic save", "yuca/utils.py save_torch")],
     ["the checkpoint file at every step", "losses and states of the training steps"], NOTE)
prop("S01", "A step predictor's log and model belong together and survive crashes",
     "Training a step predictor saves log and model at every due epoch: the saved model is the network trained so far by gradient descent on the "
     "mean squared error, its loss on the validation data is the last one in the log, and nothing but the seed and the data decides them; "
     "a later training has files of its own. At every moment, and after any crash, disk error or "
     "power failure, each saved file is absent, the previous one or the new one, complete.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "sizes, epochs, save intervals, batch sizes; crash at any file operation, torn and short writes, EIO, ENOSPC, power failure, concurrent readers, clock and entropy",
     "No test trains a step predictor.",
     ["yuca/step_predictor.py", "yuca/utils.py"],
     [("training loop, log and model files", "yuca/step_predictor.py StepPredictor.train / save")],
     ["log and model files at every step"], NOTE)
prop("A01", "A multiverse analysis measures each universe alone and saves it whole",
     "Analysing a directory of universes leaves one complete analysis for each config in it, under its own name next to the directory, with the mortality, fertility, "
     "last step, entropy and autocorrelation of that universe's own runs, whatever other configs are there, in "
     "whatever order they are listed and whoever else is analysing. The configs are not touched, and a crash or disk fault never leaves a torn analysis.",
     ["inputs", "schedules", "crash_points", "fault_sequences", "histories"],
     "1-4 configs in any order, sizes, steps, batch, random or pattern-network starts, two analyses at once, crash, torn writes, EIO, ENOSPC, power failure",
     "No test runs an analysis.",
     ["yuca/analyze.py", "yuca/utils.py", "yuca/ca/continuous.py"],
     [("one universe object analyses all configs in turn", "yuca/analyze.py Phanes.analyze_multiverse / analyze_universe")],
     ["analysis files", "grids recorded from the universe"], NOTE + "The measures are recomputed independently from recorded grids.")
prop("W01", "An evaluation depends on its inputs, not on what was evaluated before",
     "The reward, the fraction of active grids and the universe's params after an evaluation depend only on the seed and on the params (and pattern) evaluated: "
     "not on earlier evaluations in the same environment, on evaluations that failed half-way for lack of memory, nor on other environments of "
     "the process. The reward is the one the grids of that evaluation call for, and inputs are not changed.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "halting, simple halting and glider environments over all universe classes and prediction modes; any sequence of up to 7 evaluations, failures at any step, other environments, switches and stray runs",
     "The tests make one step with one environment; leaks between evaluations need several, with failures in between.",
     ["yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", "yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/code.py",
      "yuca/metaca.py"],
     [("reset and step of environments", "yuca/wrappers/*.py reset / step"), ("state of universes", "yuca/code.py CODE.reset, yuca/metaca.py MetaCA.reset")],
     ["reward, info and params of each evaluation", "grids recorded from the universe"], NOTE)
prop("B01", "The pattern viewer shows the pattern it names, moving as its universe does",
     "In every session of the pattern viewer, next and previous walk through the zoo in order and round its end (passing over patterns without a recorded commit), reset "
     "returns to the start of the current pattern, and the image shown is always the named pattern after the displayed number of steps of the universe named with it. Run and pause, faster and slower act "
     "on that session alone, with exactly one timer of the chosen period while it runs. Read errors fail the click they hit and nothing after the next successful one.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "1-3 sessions of one server, any sequence of clicks, waits, opened and closed sessions, patterns added to the zoo before and while it runs, read errors, stalls, clock jumps",
     "No test imports the viewer; its state is spread over globals, timers and the librarian's index and depends on the order of clicks.",
     ["gecco_bokeh_app/main.py", "yuca/zoo/librarian.py", "yuca/ca/continuous.py"],
     [("clicks and periodic update", "gecco_bokeh_app/main.py update / go / faster / slower / reset_*_pattern")],
     ["image, texts, button labels and timers of each session's document"],
     NOTE + "Patterns of the shipped zoo that the viewer cannot show (neural, reaction-diffusion, larger than its grid) are recorded as known findings.",
     state=[("position", "the last entry of the librarian's index", "lib.index"), ("timer", "session_callbacks of the document", "bokeh document")])
prop("U01", "Every step of a universe follows the rule it was given, whatever came before",
     "Each step moves the grid by the step size times the growth that the universe's current kernels, growth functions, channels and edges define, clipped to 0..1 "
     "(rates of change for MetaCA, Gray-Scott for RxnDfn, its network for NCA), and the params it reports are those it was given. This holds for new universes, which follow the config they describe themselves with, and after any sequence of loading and restoring configs, "
     "setting params, kernels, radius and step size, frames, resets and reloads, on this or other universes, and after any of them failed for lack of memory and was tried again; the grid given is never changed, and whatever the caller later does to the arrays, tensors, configs and grids it handed over or was given changes nothing.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "1-3 universes of all seven families used in turn, up to 16 operations, every growth function and kernel, 1-9 channels, all edges and grid shapes; MemoryError at any torch call of a step or operation",
     "Tests step universes fresh from their constructors and check shapes, never values; a rule left stale by an earlier operation shows only in the values after a particular sequence.",
     ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/lenia.py", "yuca/code.py",
      "yuca/metaca.py", "yuca/random_step_ca.py", "yuca/kernels.py", "yuca/activations.py"],
     [("a step", "yuca/ca/common.py CA.forward; continuous.py CCA.update_universe, genesis, persistence"),
      ("what a rule is made from", "continuous.py load_config, set_params; common.py set_kernel_params, set_kernel_config, set_kernel_radius")],
     ["grids given to and returned by steps and frames", "get_params, dt of the universes"],
     NOTE + "The rule is written down again in float64 numpy (sim/refca.py) and carried along the history; grids may differ from it by what float32 convolutions can.",
     state=[("dgrid", "accumulated growth of MetaCA", "ca.dgrid")])
prop("U02", "Time adds up to the steps taken, and adaptive steps keep to their error bound",
     "The time of a universe is the sum of the sizes of the steps it took since it was reset: steps that failed and frames made in between do not count, and leave no trace in later steps. "
     "An adaptive universe takes the first of twice its previous step (at most max_dt) and successive three quarters of it whose largest relative error against two half steps is below the threshold, "
     "and min_dt when none above it is; a randomly stepping one keeps to its range.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "adaptive universes with all bounds and thresholds, random-step, plain, neural and reaction-diffusion universes; sequences of steps, resets, reloads and changes of rule; MemoryError at any torch call of a step",
     "No test looks at time or step sizes; both are carried from step to step, so an error needs a history, and one that fails in the middle of a step needs the fault.",
     ["yuca/code.py", "yuca/random_step_ca.py", "yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/reaction_diffusion.py"],
     [("choice of the step", "yuca/code.py CODE.adaptive_euler"), ("time", "t_count in forward and reset")],
     ["t_count and dt after every step, operation and failure"], NOTE,
     state=[("prev_dt", "size of the previous step", "ca.prev_dt"), ("t_count", "time since reset", "ca.t_count")])
prop("U03", "Rules made ready play the game they are named after",
     "A universe given the config of a life-like rule (any lists of neighbour counts for birth and survival, empty, unordered and 0 and 8 among them; the defaults are Conway's) turns every grid of zeros and ones, "
     "of any size, batch and kind of edge, into exactly the next generation of that automaton, generation after generation. The ready-made smooth-life, orbium and geminium rules, life-like rules of larger neighbourhoods, "
     "and grids between zero and one, step as those rules are defined. This holds for every config asked for, whatever was asked for before, whatever callers did with the configs and lists they hold, when the config is edited before use, "
     "and for universes saved and restored by other processes, also when an operation failed for lack of memory and was tried again or a saver crashed; the lists asked with are never changed.",
     ["histories", "schedules", "crash_points", "fault_sequences", "inputs", "configurations"],
     "1-3 processes of up to 11 operations (rules loaded, asked for, edited, played, saved and restored over shared files), all four makers with all arguments and defaults, all universe families; MemoryError at any torch call, crashes, torn and failing writes, stalls",
     "Tests look at the shapes of two configs. That every configuration of a neighbourhood goes the right way for all 2^18 rules, and that a default is still the default after someone edited what they were handed, takes search over rules, grids and histories.",
     ["yuca/configs.py", "yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/activations.py", "yuca/kernels.py"],
     [("rules", "yuca/configs.py get_life_like_config, get_smooth_life_config, get_orbium_config, get_geminium_config"), ("intervals", "yuca/configs.py get_smooth_interval; yuca/activations.py SmoothIntervals")],
     ["grids after every step"], NOTE + "The automaton and the definitions of the rules are written down again in numpy (sim/checks/life.py, sim/refca.py).",
     state=[("config", "rule of a universe", "ca.load_config, ca.save_config")])
prop("U04", "The creatures of the zoo live in their universes, wherever they are put",
     "A pattern of the shipped zoo in a universe with the config its entry names, or one made by yuca.patterns (glider, puffer, orbium, geminium, smoothlife glider) under the rule yuca.configs makes for it, takes the course it takes alone in a new one, whatever its place on the grid (across the edges too), turned or mirrored, "
     "in any slot of a batch next to anything; that course starts with the step the shipped config defines, and the creature keeps 0.6 to 1.6 of its mass for 40 steps (the 33 entries listed in the check, and those made, but for the puffer, which leaves debris). "
     "This holds in universes that held other creatures before, for creatures kept in a zoo on the way and taken up again by another process, and when restoring or stepping failed for lack of memory and was tried again or a keeper crashed.",
     ["histories", "schedules", "crash_points", "fault_sequences", "inputs", "configurations"],
     "1-3 processes of up to 5 visits, 33 shipped and 5 made creatures of continuous, neural and reaction-diffusion universes, all placements, turns and mirrorings, batches of 1-2, 1-40 steps; MemoryError at any torch call, crashes, torn and failing writes, stalls",
     "Tests load entries and look at shapes. Whether a creature lives depends on config, kernels, edges, batch and what the universe held before, over many steps.",
     ["yuca/zoo/librarian.py", "yuca/patterns.py", "yuca/configs.py", "yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/kernels.py", "yuca/activations.py"],
     [("restoring", "yuca/ca/*.py restore_config, load_config"), ("steps", "yuca/ca/*.py forward")],
     ["grid of the creature's slot after every step"], NOTE + "Courses are compared for 12 steps, within 2e-3; the first step of a visit is also compared with sim/refca.py.",
     state=[("grid", "cells of a universe", "ca.forward")])
prop("N01", "An agent does what its params say, whatever came before and in others",
     "The pattern and the rule an agent gives are those its params define (the pattern network over the grid's coordinates, with the falloff at the border; the remaining params as the rule), "
     "and its params read back as they were last set. This holds after any sequence of setting, reading and acting on this and other agents, after the arrays given or read were changed by their owner, "
     "and after an operation failed for lack of memory and was tried again; the params given are never changed.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "1-3 agents of all three kinds, up to 15 operations, all ways of construction, grids of 4-16, 1-2 channels; MemoryError at any torch call",
     "Tests check shapes of one agent's action; an agent that shares state with an array or agent is right until someone else changes it.",
     ["yuca/cppn.py", "yuca/params_agent.py"],
     [("params in and out", "yuca/cppn.py CPPN/CPPNPlus.set_params, get_params; yuca/params_agent.py"), ("pattern", "yuca/cppn.py CPPN.forward, get_action")],
     ["actions and params of every agent"], NOTE + "The network is written down again in float64 numpy.")
prop("P01", "A plot of a search shows one state of its log, whole, whenever it is made",
     "A plot made of the log of a search, while the search goes on, after it ended or after it was cut off, shows the mean, best, worst and deviation of every generation that was finished "
     "at one moment while the plot was being made, and the genesis and persistence functions of that generation's elites, one figure for each.",
     ["schedules", "crash_points", "fault_sequences", "inputs"],
     "searches of 2-4 generations with 0-3 workers over six universe classes and all three modes, one or two plots at any point, crash, torn and short writes, EIO, ENOSPC, power failure",
     "No test makes a plot; what is in the log changes while it is read.",
     ["yuca/plot.py", "yuca/cmaes.py", "yuca/ca/continuous.py", "yuca/activations.py"],
     [("plot of a log", "yuca/plot.py plot_exp"), ("log of a search", "yuca/cmaes.py CMAES.search, save_npy")],
     ["lines and areas of the figures", "versions of the log on disk"], NOTE + "Growth functions are computed again in float64 numpy. Logs of neural searches cannot be plotted (see DESIGN.md).")
