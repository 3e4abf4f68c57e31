_N = ("Every execution is one of the real code, compared step by step with a reference model written from the documentation; complete within the bounds in the evidence file (alphabet and length of the operation sequences, configurations). "
      "Assumes the reference model in /verif/seq/src is right and that longer sequences or larger values behave like the explored ones.")
S = {
 "C08": ("bounded storage against a window model; all window states within bounds", _N),
 "C09": ("memory and temp-file storage against a byte map", _N),
 "C10": ("adaptive storage against the storage it must pick, in lockstep", _N),
 "C18": ("HTTP streams against every answer of a simulated server, and the bundled clients against one on the loopback network", _N),
 "C19": ("every behaviour of an asynchronous reader, poll by poll", _N),
 "C20": ("pipelines of scripted processes, every way of behaving and ending; every use of the builders", _N + " Processes run under the operating system's own schedule, which is not enumerated."),
 "C21": ("OpenDAL streams over a service that may fail at any point", _N),
 "C25": ("builder calls in every order, observed on a running stream", _N),
 "C26": ("every way of opening a stream and of using its handles", _N),
 "C28": ("all sequences of adding default middleware, opening streams and sending requests, each in a process of its own", _N),
 "C29": ("all ways of making storages from one provider and of using and dropping their halves", _N),
 "C17": ("registry against an independent evaluation of the rules", _N),
}
