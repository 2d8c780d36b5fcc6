"""What each check runs: the number of generated cases per tier, and how."""

_MODEL = "Explored, not exhausted: nothing is claimed about cases that were not generated. "
_CLOCK = ("Runs on a virtual clock (testing/synctest) against a simulated controller; trusts the clock, "
          "the simulated serial port and the reference model in the harness. ")

CHECKS = {
    "C01": dict(
        quick=100000, thorough=3000000,
        technique="generated bodies, all single-byte corruptions, against a reference framer; frames seen on a simulated port",
        note=_MODEL + "Trusts the 20-line reference framer."),
    "C02": dict(
        quick=250000, thorough=10000000,
        technique="structure-aware fuzzing of the decoder with a reference decoder, confinement and repeatability relations",
        note=_MODEL + "Trusts the reference decoder in the harness."),
    "C03": dict(
        quick=150000, thorough=6000000,
        technique="generated frames round-tripped through an independent encoder, compared field by field",
        note=_MODEL + "Trusts the bit positions written down in the harness from the serial API description."),
    "C04": dict(
        quick=250000, thorough=10000000,
        technique="generated report payloads against a reference decoder; all 256 duration bytes in every case",
        note=_MODEL + "Trusts the reference decoder and its tables of sensor types and units."),
    "C05": dict(
        quick=100000, thorough=4000000,
        technique="generated nodes, endpoints, levels and payloads against reference encodings, with repeat and aliasing relations",
        note=_MODEL + "Trusts the reference encodings."),
    "C06": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="generated frame streams and read splits; oracle: reference parser plus the metamorphic relation to one frame per read",
        note=_MODEL + _CLOCK),
    "C07": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="generated noise, corruption, truncation and silence between valid frames against a reference receiver",
        note=_MODEL + _CLOCK),
    "C08": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="stateful histories of requests and controller behaviour against a trace-driven reference model",
        note=_MODEL + _CLOCK),
    "C09": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="stateful histories with lost, late and undecodable answers; oracle: exact end time of every request",
        note=_MODEL + _CLOCK),
    "C10": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="stateful histories of commands and ACK, NAK, CAN, silence; oracle: invariants over the time-stamped port history",
        note=_MODEL + _CLOCK),
    "C11": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="fault injection: generated read failures and failing reopens with traffic around them, against a reference model",
        note=_MODEL + _CLOCK),
    "C12": dict(
        quick=80000, thorough=3000000, per_process=5000,
        technique="generated report histories from several nodes against a reference fold of each node's reports",
        note=_MODEL + _CLOCK),
    "C13": dict(
        quick=8000, thorough=300000, per_process=1000,
        technique="generated networks, devices, losses and orders of answers against a simulated controller and reference device data",
        note=_MODEL + _CLOCK + "Discovery events are judged on networks of up to 8 nodes (the event queue holds 10)."),
    "C14": dict(
        quick=15000, thorough=600000, per_process=2000,
        technique="generated mixes of sleeping and listening nodes and wake-up histories; oracle: invariant over the request history",
        note=_MODEL + _CLOCK),
    "C15": dict(
        quick=60000, thorough=2000000, per_process=5000,
        technique="generated nodes, endpoints and call sequences against reference frames; endpoint lookup for arbitrary integers",
        note=_MODEL + _CLOCK),
    "C16": dict(
        quick=12000, thorough=400000, per_process=1500,
        technique="generated node lists saved and loaded (round trip), and structure-aware fuzzing of the file, followed by use of every loaded node",
        note=_MODEL + _CLOCK),
    "C17": dict(
        quick=8000, thorough=250000, per_process=1000,
        technique="generated histories of changes, saves and injected write failures; oracle: the node states, inotify and hard links on the file",
        note=_MODEL + _CLOCK + "The full disk is a limit of the file size (RLIMIT_FSIZE). Loss of power is not simulated: whether data reaches the disk itself is not judged."),
    "C18": dict(
        quick=5000, thorough=200000, per_process=700, race=True, retries=60,
        technique="generated concurrent histories of calls and traffic under the race detector; oracles: data races, crashes, calls and locks that never end",
        note=_MODEL + "Schedules are those of the Go scheduler on 8 threads; the race detector judges every access by its ordering, not by its moment. "
        "Runs on a virtual clock (testing/synctest); trusts the shim for sync to give the orderings real locks give."),
    "C19": dict(
        quick=20000, thorough=600000,
        technique="generated lookups (listed ids, near misses, arbitrary strings, histories with mutation) against a parse of the device files",
        note=_MODEL + "Trusts encoding/json and the reference reading of the device files."),
    "C20": dict(
        quick=20000, thorough=600000,
        technique="generated pairs, histories and identifications, sweeps of all 65536 pairs, against a parse of the mandatory text",
        note=_MODEL + "Trusts the reference reading of the text and the class numbers written down in the harness."),
    "C21": dict(
        quick=320, thorough=8000, tools={"database": "generators/database", "commandclasses": "generators/commandclasses"}, shrink="60s",
        technique="generated directories of device files and mandatory texts; the generated code is compiled, run and compared with a reference reading of the input",
        note=_MODEL + "Ids and command classes are hexadecimal, class versions are digits. Trusts encoding/json and the reference reading of the files."),
    "C22": dict(
        quick=8000, thorough=200000, per_process=2500, race=True, retries=60,
        technique="stateful histories on a recorder at a pseudo terminal, under the race detector; oracles: the bytes at both ends, the errors of the port without recorder, the decoded recording",
        note=_MODEL + "Runs in real time on pseudo terminals of the kernel. Reads come from one goroutine at a time."),
    "C23": dict(
        quick=20000, thorough=800000, tools={"viewer": "cmd/serialrecordingtohex"},
        technique="generated and damaged recordings given to the viewer program, whose output is compared with that of a reference viewer",
        note=_MODEL + "Trusts encoding/gob to tell a damaged recording."),
    "C24": dict(
        quick=8000, thorough=250000, per_process=1000,
        technique="fault injection: generated errors, delays and losses of the port while connecting, against a reference model; pseudo terminals for the real port",
        note=_MODEL + _CLOCK + "The real port is a pseudo terminal of the kernel, used in real time in one case of forty."),
    "C25": dict(
        quick=1600, thorough=60000, per_process=200,
        technique="generated histories repeated 24 to 60 times; metamorphic oracle: goroutines, memory and ports in use after n and after 2n repetitions are the same",
        note=_MODEL + _CLOCK + "Memory growth below 100 bytes per repetition is not seen."),
    "C26": dict(
        quick=1600, thorough=60000, per_process=200, race=True, retries=20, real=5, shrink="10s",
        technique="generated pairs and triples of networks at once, under the race detector; every controller is judged by the oracle of C13 as if it were alone, and by non-interference of generated reports, requests and losses",
        note=_MODEL + _CLOCK + "Five processes run cases in real time. Accesses of two controllers to the same memory are races, whatever their moment."),
    "C27": dict(
        quick=720, thorough=12000, shards=24, tools={"example": "zwave-example"}, shrink="30s",
        technique="stateful histories of pages, reports and losses on the running example program with a simulated controller at a pseudo terminal, against a reference model of the network",
        note=_MODEL + "Runs in real time: schedules are those of the kernel. Trusts net/http and encoding/json. The log of the example is not judged."),
}
