func (*samples).append
params ss s
anchor C18 C22
requires ss != nil
ensures[C18] below the maximum it grows by one: implies(len(old(*ss)) < historyMaxSamples, len(*ss) == len(old(*ss)) + 1)
ensures[C18] at the maximum it stays: implies(len(old(*ss)) == historyMaxSamples, len(*ss) == historyMaxSamples)
ensures[C18] never grows beyond: implies(len(old(*ss)) >= historyMaxSamples, len(*ss) <= len(old(*ss)))
ensures[C18] the newest is last: len(*ss) > 0 && (*ss)[len(*ss)-1] == s
ensures[C18] order kept, oldest dropped: let(d, len(old(*ss)) + 1 - len(*ss), forall(i, 0, len(*ss)-1, (*ss)[i] == old((*ss)[i + d])))

func (*samples).log
params ss
anchor C18 C22
requires ss != nil
ensures[C18] one rate per sample: len(result) == len(*ss)
ensures[C18] rates compare with the oldest: implies(forall(i, 0, len(*ss), (*ss)[i].pid != 0), forall(i, 0, len(*ss), result[i].high == (result[i].v >= growthRateThreshold)))
ensures[C18] history is not changed: *ss == old(*ss)
