package main

import "verif.local/h/lib"

func init() { checks["C25"] = c25; checks["C26"] = c26 }

func c25(r *lib.Run) {
	r.Rule = "one evaluation = one chunked request (random pools split over 1 to 60 chunks in three styles) given to the real GetChunkedRequest in-process or over gRPC through StartServer, the returned profile compared with what was sent; or a request ending early (5 ways), which must yield an error and no profile and no match from the sample functions. Non-trivial: more than one chunk, or incomplete"
	r.Comp("vf", "reassemble")
}

func c26(r *lib.Run) {
	r.Rule = "one evaluation = one run of a sample function over gRPC (served by the library's StartServer, by the stand-alone binary, or behind the real om-core) on disjoint pools of drawn sizes; the returned matches are checked for count, roster sizes, composition, distinct tickets, unchanged content, unique ids and extensions. Non-trivial: the pools hold a ticket"
	r.Comp("vf", "functions", "VERIF_OM="+r.Bins["om"], "VERIF_MMF="+r.Bins["mmf"])
}
