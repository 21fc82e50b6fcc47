"""Which binaries decide which property, and what is said about them in MANIFEST.json."""

# a network and mount namespace of its own for every shard
UNSHARE = ["unshare", "-Urnm"]

BINS = {
    "lib": {},
    "cat": dict(buildenv={"CGO_ENABLED": "0"}),  # all its threads can give up a capability
    "fs": dict(overlay="overlay/fs.py", flags=["-ldflags=-checklinkname=0"]),
    "sim": dict(overlay="overlay/sim.py", flags=["-ldflags=-checklinkname=0"]),
    "lab": dict(daemon=True, prefix=UNSHARE),
    "race": dict(overlay="overlay/fs.py", flags=["-race", "-ldflags=-checklinkname=0"], prefix=UNSHARE),
    "labrace": dict(cmd="lab", daemon=True, daemonflags=["-race"], prefix=UNSHARE, env={"FLU_RACE": "1"}),
}

PBT = "property-based testing (rapid)"

PROPS = {
    "C01": dict(bins=["lib"], level="exploration", technique=PBT + ": operation histories against a set model",
                note="Random search over histories of up to 40 steps; sets up to 70000 chunks. Trusts the map model."),
    "C02": dict(bins=["lib"], level="exploration", technique=PBT + ": chunk sets and queries against a boolean-array model",
                note="Random search; sets up to 65536 chunks."),
    "C03": dict(bins=["lib"], level="exploration", technique=PBT + ": write/read round trip and damaged bytes",
                note="Random search; damage is truncation, extension, bit flips, other length words and arbitrary bytes."),
    "C04": dict(bins=["lib"], level="exploration", technique=PBT + ": encode/decode round trip",
                note="Random search over message values."),
    "C05": dict(bins=["lib"], level="exploration", technique=PBT + ": differential against an independent codec",
                note="Random search over message values; the independent codec is the published layout."),
    "C07": dict(bins=["lib"], level="exploration", technique=PBT + ": conversions against an independent hex codec",
                note="Random search over hashes, texts and byte strings."),
    "C08": dict(bins=["lib", "cat"], level="exploration", technique=PBT + ": read/reset histories against the byte slice",
                note="Random search; files up to 20000 bytes, sections anywhere, failing sources."),
    "C09": dict(bins=["cat", "lab"], level="exploration", technique=PBT + ": stateful histories against a catalogue model, reopened after every step; real daemons killed and started again between commands",
                note="Random histories of up to 30 steps on real folders; files up to 6000 bytes, up to 300 chunks. The histories of real daemons are short."),
    "C10": dict(bins=["fs", "lab"], level="exploration", technique=PBT + ": stateful histories in which operations stop for good at a file-system call, every call in turn, reopened and compared with a catalogue model; real daemons killed some time into a command",
                note="The death of the process, not of the machine: what was written before it stays. Small files. Runs the real catalogue on a standard library whose file-system calls are instrumented."),
    "C11": dict(bins=["fs"], level="exploration", technique=PBT + ": stateful histories in which file-system calls fail, every call in turn, compared with a catalogue model in memory and reopened",
                note="Eight error numbers, once or from then on, shortened reads and writes, and missing folders. Small files. Runs the real catalogue on a standard library whose file-system calls are instrumented."),
    "C12": dict(bins=["cat", "lab"], level="exploration", technique=PBT + ": stateful sharing histories against a catalogue model, also through the command line of real daemons and several at once",
                note="Random histories; files up to 12 MiB (most of them small), odd names, links, folders, pipes, devices. Permission bits are exercised by giving up the capabilities of root."),
    "C13": dict(bins=["cat", "lab"], level="exploration", technique=PBT + ": stateful histories with files altered behind the catalogue's back, also through the command line of real daemons",
                note="Random histories of up to 30 steps on real folders."),
    "C14": dict(bins=["cat"], level="exploration", technique=PBT + ": stateful save histories against a catalogue model",
                note="Random histories of up to 40 steps, up to 300 chunks per file."),
    "C18": dict(bins=["cat", "sim"], level="exploration", technique=PBT + ": generated announcements against a model of what may be accepted, given to the catalogue and sent by scripted peers",
                note="Random announcements and histories."),
    "C20": dict(bins=["sim"], level="exploration", technique=PBT + ": scripted answers to overlapping discoveries in virtual time, against an exact model",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C15": dict(bins=["sim"], level="exploration", technique=PBT + ": scripted downloading peers against the real uploader in virtual time, every packet checked",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C23": dict(bins=["sim"], level="exploration", technique=PBT + ": generated transfers and mishaps, also while sends and socket openings fail, then a count of the daemon's sockets, files and tasks; the heap measured while the same things are done over and over",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C16": dict(bins=["sim"], level="exploration", technique=PBT + ": scripted misbehaving peers against the real downloader in virtual time, every held chunk justified by what arrived",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C25": dict(bins=["sim", "lab"], level="exploration", technique=PBT + ": downloads with restarts, repeated gets, removals and misbehaving peers in virtual time, every request checked; also while sends and socket openings fail, and with real daemons killed in mid-download",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C17": dict(bins=["sim", "lab"], level="exploration", technique=PBT + ": whole downloads between daemons over a delaying, repeating and losing network in virtual time, compared byte for byte",
                note="Runs the real servers on a simulated network in virtual time, with receive buffers of the default size; trusts the simulation of UDP sockets."),
    "C06": dict(bins=["sim", "lab"], level="exploration", technique=PBT + ": generated datagrams, floods and damaged messages against the real message handling in virtual time, then everything asked again",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C19": dict(bins=["sim", "lab"], level="exploration", technique=PBT + ": discovery requests during histories of sharing and downloading, answers compared with a model; real daemons discovering each other",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C21": dict(bins=["sim", "lab"], level="exploration", technique=PBT + ": remote listings compared with the local catalogue, and scripted and damaged answers",
                note="Runs the real server on a simulated network in virtual time; trusts the simulation of UDP sockets."),
    "C24": dict(bins=["sim", "lab"], level="exploration", technique=PBT + ": command lines of the real tool against real daemons in network namespaces, every output compared with a model",
                note="Real time and real sockets, so histories are short; trusts the model of the catalogue."),
    "C22": dict(bins=["race", "labrace"], level="exploration", technique=PBT + ": concurrent histories with random delays at locks and file-system calls, checked for linearizability (porcupine) against a catalogue model and for data races; concurrent use of real daemons with the race detector",
                note="Sees the interleavings that happen, made different by random delays; up to five concurrent users and three files. An interleaving that was found is searched for again on replay."),
}
