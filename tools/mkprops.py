#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

T = "src/types.rs"; CH = "src/chain.rs"; RS = "src/resource.rs"
def smp(x): return f"src/samplers/{x}.rs"
def cfg(x): return f"src/configure/{x}.rs"
FLAGS = [("sorted flag", "claims the list is in descending logit order", T), ("softmax flag", "claims the probabilities are the softmax of the present logits", T)]

p("C01", "Building a logits list keeps every value and rejects NaN at its position",
  "Building a logits list from model output yields exactly one entry per value, in order, with the position as token id and the logit bit-for-bit unchanged (infinities and signed zeros included). If any value is NaN the construction fails and names the position of the first NaN. Building from a vector and from an iterator agree.",
  ["inputs"], "every sequence of f32 values of any length, NaN at any set of positions",
  "Tests build a handful of 3-5 element lists and never a NaN; ids beyond 16 bits, NaN positions, -0.0 and infinities are not reached.",
  [T], [("Logits::try_from_iter", T), ("TryFrom<Vec<L>>", T)], observe=["the returned list or error"])
p("C02", "Top-k construction keeps exactly the k largest finite values",
  "Building a logits list with a top-k limit keeps exactly the min(k, number of finite values) largest finite values in descending order, each with the position it had in the input as token id, and marks the list sorted. NaN and infinite values are dropped and never fail the call, and any k (including one larger than the input) is accepted. The result agrees with building the full list and then applying the top-K sampler.",
  ["inputs"], "every sequence of f32 values (ties, NaN, infinities), every k",
  "One test with 200 distinct finite values and k=20.",
  [T], [("Logits::try_from_iter_top_k insertion into a bounded sorted Vec", T)], FLAGS[:1], ["the returned list"])
p("C03", "Softmax yields the true probability distribution of the logits",
  "After softmax every entry's probability is exp(logit) divided by the sum of exp over the whole list (within f32 rounding): non-negative, summing to one, in the same order as the logits, equal for equal logits, and exactly zero for -inf. Token ids and logits are preserved, the list is in descending order, a second application changes nothing, and adding a constant to all logits or permuting the input changes no token's probability. It holds for any list with a finite largest logit and no NaN, whatever was in the probability fields before and however the sorted flag stood.",
  ["inputs"], "every list with a finite maximum: any size, magnitude, tie pattern, -inf entries, prior order, stale probabilities",
  "Tests look at softmax of 4-5 values as a side effect of sampler tests.",
  [T], [("ensure_softmax subtracts the maximum and normalises", T), ("ensure_sorted", T)], FLAGS, ["Logits entries after ensure_softmax"])
p("C04", "Sorted and softmax flags never lie, whatever samplers ran before",
  "After any sequence of samplers and list operations, a list that says it is sorted is in descending logit order, and a list that says softmax was applied holds the softmax probabilities of exactly the logits it contains now. Asking for sorting or softmax after any such history really establishes it.",
  ["histories", "inputs", "configurations"], "every sequence of samplers with any finite parameters, interleaved with sort/softmax requests and declared caller edits, on any NaN-free list",
  "Tests run one sampler on a fresh list, or two fixed chains; stale flags only show when a later sampler trusts them.",
  [T] + [smp(x) for x in ("flat_bias","repetition","freq_presence","sequence_repetition","temperature","top_k","top_p","min_p","top_a","tail_free","locally_typical","mirostat")],
  [("every modifying sampler clears the flags it invalidates", "src/samplers"), ("ensure_sorted / ensure_softmax", T)], FLAGS, ["get_sorted, get_softmax and the entries after every step"])
p("C05", "Filtering samplers only drop tokens and never below min_keep",
  "The filtering samplers (top-K, top-P, min-P, top-A, tail free, locally typical and both mirostats) only remove entries: every survivor is an input token with its logit unchanged and appears once. At least min(min_keep, input length) entries survive, so a list is never emptied when min_keep is at least 1. All of them except locally typical keep the highest-logit tokens, i.e. no dropped token beats a survivor.",
  ["inputs", "configurations", "histories"], "every list, every parameter value (including out-of-range ones), every sequence of filters, reused sampler instances",
  "Tests check 1-3 parameter values per filter on 4-5 tokens with min_keep 0 or 1.",
  [smp(x) for x in ("top_k","top_p","min_p","top_a","tail_free","locally_typical","mirostat")],
  [("truncate after ensure_softmax/ensure_sorted", "src/samplers"), ("min_keep guards", "src/samplers")], observe=["the list after each filter"])
p("C06", "Top-K keeps exactly the max(k, min_keep) best tokens",
  "The top-K sampler leaves exactly min(input length, max(k, min_keep)) tokens, and they are the ones with the largest logits (any choice among equals), in descending order. A larger k or min_keep never leaves fewer tokens.",
  ["inputs", "configurations"], "every list, every k and min_keep up to the maximum integer",
  "Tested with k=1 and k=3 on four tokens, min_keep 0.",
  [smp("top_k")], [("sort then truncate", smp("top_k"))], observe=["the list after the sampler"])
p("C07", "Top-P keeps the smallest most-probable set that reaches p",
  "The top-P sampler walks the tokens from most to least probable and keeps the shortest prefix whose total probability is at least p and which has at least min_keep (and at least one) tokens; if the total never reaches p everything is kept. The probabilities are those of the list as handed over, and a larger p or min_keep never leaves fewer tokens.",
  ["inputs", "configurations"], "every list with defined softmax, every p (including exactly attained sums) and min_keep",
  "Tested with three p values on one list and min_keep 1; exact boundaries, ties, min_keep above the cut and stale probabilities are not reached.",
  [smp("top_p")], [("cumulative sum with >= p", smp("top_p"))], observe=["number and identity of survivors"])
p("C08", "Min-P and Top-A cut exactly at their probability threshold",
  "Beyond the first max(1, min_keep) tokens, min-P keeps precisely the tokens whose probability is at least p times the largest probability, and top-A precisely those whose probability is at least a1 times the largest probability raised to a2. p = 0, a1 = 0 or a2 = 0 disables the sampler, leaving the list unchanged. A larger p or a1 never leaves more tokens.",
  ["inputs", "configurations"], "every list with defined softmax, every p, a1, a2 and min_keep",
  "Three parameter values each on one five-token list; equality with the threshold and min_keep never matter there.",
  [smp("min_p"), smp("top_a")], [("threshold scan from max(1, min_keep)", smp("min_p")), ("a1 * max^a2", smp("top_a"))], observe=["number and identity of survivors"])
p("C09", "Locally typical keeps the tokens nearest the entropy until mass exceeds p",
  "The locally typical sampler orders tokens by how far their surprisal (-ln probability) is from the entropy of the distribution and keeps the shortest prefix of that order whose total probability exceeds p and which has at least min_keep (and at least one) tokens. Tokens of zero probability neither count towards the entropy nor make the call fail.",
  ["inputs", "configurations"], "every list with defined softmax including zero-probability tokens, every p and min_keep",
  "Two four-token lists with p=0.5; zero probabilities, larger lists and min_keep are not reached.",
  [smp("locally_typical")], [("entropy, shifted scores, cumulative cut", smp("locally_typical"))], observe=["the set of survivors"])
p("C10", "Tail free cuts where the normalised second-derivative mass exceeds z",
  "For more than two tokens and z < 1, tail free sampling takes the absolute second differences of the descending probabilities, normalises them to sum to one, and cuts at the first index, not below min_keep, at which their running sum exceeds z; if there is none, or all tokens are equally probable, everything is kept. With z >= 1 or at most two tokens the list is returned unchanged, without error.",
  ["inputs", "configurations"], "every list with defined softmax of any length (including 0, 1, 2), every z and min_keep",
  "Three z values on one five-token list; lengths 2 and 3, ties and min_keep are not reached.",
  [smp("tail_free")], [("second derivative scan", smp("tail_free"))], observe=["number and identity of survivors"])
p("C11", "Flat bias adds its bias to exactly the listed tokens",
  "The flat bias sampler adds each listed bias to the logit of the token with that id and changes nothing else: other tokens keep their exact logits, and no token is added, removed or renumbered. Listed tokens that are not present are ignored, and edits to the bias list take effect on the next use.",
  ["inputs", "configurations", "histories"], "every list (any ids, order, filtering state) and every bias list of distinct ids, including -inf and sequences of edits",
  "Two tests with one -inf bias on an unpermuted list, where token id equals position.",
  [smp("flat_bias")], [("lookup by token id", smp("flat_bias"))], observe=["the logits after the sampler"])
p("C12", "Repetition penalty hits each token of the last_n window exactly once",
  "With a penalty above 1, the repetition sampler divides the positive logits and multiplies the non-positive logits of exactly those tokens that occur among the last last_n history tokens, once each no matter how often they occur; every other logit stays as it was. With a penalty of at most 1, last_n 0 or an empty list it changes nothing.",
  ["inputs", "histories", "configurations"], "every list, every history (any length relative to last_n), every penalty and last_n",
  "Tests use last_n 100 with histories up to five tokens, so the window never cuts anything off, and only positive logits.",
  [smp("repetition")], [("tail slice of the history", smp("repetition"))], observe=["the logits after the sampler"])
p("C13", "Frequency and presence penalties count occurrences in the last_n window",
  "The frequency/presence sampler subtracts count x frequency_penalty + presence_penalty from the logit of every token that occurs count > 0 times among the last last_n history tokens, and leaves every other logit as it was. With both penalties zero, last_n 0 or an empty list it changes nothing.",
  ["inputs", "histories", "configurations"], "every list, every history (any length and multiplicity), any finite penalties of either sign, any last_n",
  "Tests use last_n 100 and at most three occurrences, so neither the window nor large counts are exercised.",
  [smp("freq_presence")], [("occurrence counts over the tail slice", smp("freq_presence"))], observe=["the logits after the sampler"])
p("C14", "Sequence repetition penalises exactly the continuations of seen sequences",
  "Within the last last_n tokens, a token is penalised exactly when it followed an earlier match of the history's current ending of at least min_length tokens; the penalty is flat_penalty plus stacking_penalty times the longest such match counted with its continuation, applied once per token. A match may skip up to tolerance tokens of the ending, each skip covering at most max(1, max_merge) consecutive history tokens; with tolerance 0 matches are exact, and an occurrence overlapping the ending itself may or may not count. All other logits stay as they were, and the sampler does nothing when both penalties are zero, min_length is below 2 or exceeds last_n, or the history is shorter than twice min_length.",
  ["inputs", "histories", "configurations"], "every history, every min_length, tolerance, max_merge, last_n and penalty",
  "The only test of this sampler fails at this commit (it looks at the wrong position after sorting) and covers two histories.",
  [smp("sequence_repetition")], [("find_seqs / fuzzy_match", smp("sequence_repetition"))], observe=["the logits after the sampler"])
p("C15", "Temperature divides every logit and keeps the ranking",
  "The temperature sampler divides every logit by the temperature and changes nothing else; temperature 0 leaves the list untouched. A positive temperature never changes which tokens rank above which, so the best token stays best, and applying two temperatures in turn equals applying their product.",
  ["inputs", "configurations"], "every list in every sorted/softmax state, every finite temperature",
  "Temperature is only exercised inside two fixed chains, with value 0.8.",
  [smp("temperature")], [("division of every logit, flag invalidation", smp("temperature"))], observe=["the logits and the order after the sampler"])
p("C16", "Greedy selects a token with the highest logit and alters nothing",
  "The greedy sampler reports a token whose logit is the largest in the list (ignoring NaN), in whatever order the list is, and reports none for an empty list. It modifies neither the tokens nor their order, and it needs no softmax and no resources.",
  ["inputs", "histories"], "every list (any order, sorted flag, ties, infinities, negative or NaN entries), reused instances",
  "Two four-token monotone lists.",
  [smp("greedy")], [("maximum by total order, or first when sorted", smp("greedy"))], observe=["the reported token, the list"])
p("C17", "Random selection follows the probabilities and never picks a zero one",
  "The random distribution sampler reports a token of the list with probability equal to its softmax probability: over many draws the frequencies agree with the distribution, and a token of probability zero is never reported. It leaves the set of tokens and their logits unchanged and reports none for an empty list.",
  ["inputs", "histories"], "every list with defined softmax, every generator state",
  "Two one-hot lists with one seed, where every weighting gives the same answer.",
  [smp("rand_distrib")], [("WeightedIndex over softmax probabilities", smp("rand_distrib"))], observe=["the reported tokens over many draws"])
p("C18", "Mirostat 2 cuts at surprise mu and steers mu towards tau",
  "Mirostat 2 keeps the most probable tokens up to the first whose surprise (-log2 probability) exceeds mu, at least one and all of them if none exceeds it, and picks among the kept tokens by their renormalised probabilities. After each pick mu decreases by eta times (surprise of the picked token in the kept distribution minus tau), starting from 2 tau, and setting tau resets mu to 2 tau. An empty list yields no token and leaves mu alone.",
  ["inputs", "histories", "configurations"], "every sequence of lists with defined softmax through one sampler, every tau, eta, mu, every generator seed",
  "Two one-hot lists; mu is never looked at and truncation never leaves more than one token.",
  [smp("mirostat")], [("truncation at mu, mu update", smp("mirostat"))], [("mu", "current maximum surprise", smp("mirostat"))], ["survivors, token, the mu option"])
p("C19", "Mirostat 1 keeps k tokens as estimated in its paper and steers mu",
  "Mirostat 1 estimates the Zipf exponent s from the log ratios of the m most probable tokens, keeps the k = (eps 2^mu / (1 - n_vocab^-eps))^(1/s) most probable tokens with eps = s - 1 (rounded down, at least one, at most all), and picks among them by renormalised probability. After each pick mu decreases by eta times (surprise of the picked token in the kept distribution minus tau), starting from 2 tau, and setting tau resets mu to 2 tau. Without n_vocab it fails with an error instead of picking; an empty list yields no token.",
  ["inputs", "histories", "configurations"], "every sequence of lists with defined softmax through one sampler, every n_vocab, m, tau, eta, mu, seed",
  "Two one-hot lists and a chain over four tokens, where k is always 1 to 4 and mu is never looked at.",
  [smp("mirostat")], [("s_hat estimate, k, mu update", smp("mirostat"))], [("mu", "current maximum surprise", smp("mirostat"))], ["survivors, token, the mu option"])
p("C20", "A chain equals running its samplers one after another",
  "Running a chain gives exactly the list, the reported token (that of its last sampler) and the resource effects of running its samplers in order by hand, however the chain was put together (push, +, +=, nested chains, boxed or shared samplers) and however often it is reused. If a sampler fails, the chain stops there, later samplers are not run, and that sampler's error (including an interruption with its payload) is returned unchanged.",
  ["histories", "inputs", "programs"], "every list of samplers and parameters, every grouping, every sequence of inputs through the same chain, failure at any position",
  "Two fixed chains with one grouping each, no failures.",
  [CH, T], [("try_fold over the samplers", CH), ("Add/AddAssign/push_sampler", CH)], observe=["list, token, RNG position, history, error"])
p("C21", "Wrapped samplers behave as the sampler inside, prepend hook included",
  "A sampler behind a box, a shared lock, a configurable box or inside a (nested) chain receives every call made on the wrapper (prepend, sample, sample and report, report token) exactly once, in chain order, with the caller's resources and list, and its results and errors come back unchanged. A shared sampler used from several threads answers each sample-and-report call with the result of that very call, and a shared sampler whose lock is poisoned answers with an error instead of panicking.",
  ["programs", "histories", "schedules"], "every nesting of wrappers, every sequence of calls, concurrent callers",
  "No test uses a wrapper other than implicitly, and none calls the prepend hook.",
  [T, CH, cfg("building")], [("forwarding impls for Box, Arc<Mutex>, Box<dyn BuildableSampler>", T), ("SamplerChain::sample_prepend", CH)], observe=["calls recorded by the innermost sampler"])
p("C22", "A reported token always comes from the latest call",
  "After every call, the token a selecting sampler or a chain ending in one reports is a token of the list just processed, and it is none if that list was empty. If the selecting sampler fails (missing generator, unusable weights, missing vocabulary size) it reports no token rather than an older one, and extending a chain forgets its token. Sample-and-report returns the same token that is reported afterwards.",
  ["histories", "fault_sequences"], "every sequence of calls with good, empty and failing inputs on the same instance",
  "Tests call each instance once or twice and only with valid inputs.",
  ["src/samplers/greedy.rs", "src/samplers/rand_distrib.rs", "src/samplers/mirostat.rs", CH], [("token reset at the start of each call", "src/samplers"), ("SamplerChain token field", CH)], [("last token", "token reported by the sampler", "src/samplers")], ["sample_token result, sampled_token_id"])
p("C23", "Missing resources are reported, and samplers only read what they need",
  "A sampler that needs a random generator or a token history fails with a missing-resource error when there is none and would have used it; all others, and those that are disabled or have nothing to do, work without resources. No sampler ever changes the token history, and only the selecting random samplers advance the generator. A resource provider gives access to exactly the resource it was built with, once per request, and keeps changes made through it.",
  ["configurations", "histories", "inputs"], "every sampler and parameter set against every combination of present and absent resources",
  "One test reads two random numbers; no test misses a resource.",
  [RS] + [smp(x) for x in ("rand_distrib","repetition","freq_presence","sequence_repetition","mirostat")], [("HasSamplerResources defaults, SimpleSamplerResources", RS)], observe=["errors, history and generator after each call"])
p("C24", "Same inputs and same generator seed give the same result",
  "Sampling is a pure function of the parameters, the sequence of lists, the history and the generator: two equally built samplers or chains, or a sampler and its clone, fed the same sequence with equally seeded generators, give bit-identical lists, tokens and errors at every step, regardless of what other samplers ran in between or on which thread.",
  ["histories", "configurations", "inputs"], "every chain, every sequence of inputs, every seed, with unrelated activity interleaved",
  "Tests pin one outcome for one seed and two inputs; hidden global or per-instance randomness is not looked for.",
  ["src/samplers", CH], [("all randomness comes from the resource", "src/samplers")], observe=["lists, tokens, generator position of two runs"])
p("C25", "A token banned with -inf is never selected while another is available",
  "If a flat bias of -inf (or the model itself) bans some tokens and at least one other token has a finite logit, then no chain in the documented order (bias, penalties, top-K, tail free, locally typical, top-P, min-P, top-A, temperature, then any selecting sampler) ever selects a banned token, and with min_keep of at least 1 it always selects some token without failing.",
  ["inputs", "histories", "configurations"], "every ban set, every optional subset of the documented chain with ordinary parameters, every history and seed, repeated steps",
  "Two chains ban one or two of four tokens in front of greedy or mirostat.",
  ["src/lib.rs", "src/samplers", CH], [("-inf survives every modifier; zero-probability tokens are never drawn", "src/samplers")], observe=["the selected token"])
p("C26", "Options read back as set, affect nothing else and drive the sampler",
  "Every option a sampler lists can be set and read by its full name or any unambiguous prefix with the listed type, reads back as the value set (converted to the option's own type), and leaves all other options as they were, except that setting mirostat's tau sets mu to twice tau. Unknown or ambiguous names, wrong types and values that do not fit fail without changing anything. Every built-in sampler describes itself under its own name, and one configured through options behaves exactly like one constructed with those values.",
  ["configurations", "histories"], "every sampler, every sequence of set and get operations with valid and invalid names, types and values",
  "Tests set and read the temperature and the frequency/presence options only.",
  [cfg("configurable"), cfg("metadata"), "src/samplers"], [("find_option_definition, set_option, get_option", cfg("configurable")), ("option tables in every sampler", "src/samplers")], observe=["get_option, metadata, sampling behaviour"])
p("C27", "A configuration string does what its key=value parts say, in order",
  "Configuring with `key=value:key=value...` equals setting the named options to the parsed values one after another; a key ends at the first `=` of its part, blanks around parts, keys and values and empty parts are ignored, keys may be unambiguous prefixes, and a bare value addresses the only option of a one-option sampler. An unknown or ambiguous key or a malformed value makes the call fail, and no option ends up with a value that was neither its old one nor given for it in the string.",
  ["inputs", "configurations", "programs"], "every configuration string over every sampler's options and caller-defined option tables",
  "Six fixed strings.",
  [cfg("configurable"), cfg("value")], [("configurable_sampler::configure", cfg("configurable"))], observe=["all options after configure, its result"])
p("C28", "Option values parse exactly what they denote and reject the rest",
  "Parsing an option value accepts exactly the texts that denote a value of the requested type after stripping surrounding blanks (Unicode white space): unsigned 64-bit decimal integers, floating point numbers including inf, +inf and -inf, the boolean words, any string. The value is the one denoted (numbers round-trip through their text), and everything else (a minus sign on an integer, overflow, junk) is an error rather than some value.",
  ["inputs"], "every text for every option type",
  "About a dozen fixed literals; booleans and strings never.",
  [cfg("value")], [("SamplerOptionValue::parse_value", cfg("value"))], observe=["the parsed value or error"])
p("C29", "A chain builder yields the configured samplers in slot order",
  "A chain built from slots contains, in slot order, one fresh sampler per static slot, the sampler of a single slot if one was supplied or configured, and every sampler of a chain slot in the order they were added; configuring a chain slot adds a sampler with those options, configuring a single slot adjusts its sampler. Configuring an unknown or a static slot, or with a bad string, fails and adds nothing, and ensuring presence fills only empty optional slots with the default.",
  ["histories", "configurations", "programs"], "every sequence of slot definitions, configure, ensure-present and push operations",
  "One fixed builder with three slots.",
  [cfg("building")], [("SamplerChainBuilder::configure / into_chain", cfg("building"))], [("slots", "named slots in order", cfg("building"))], ["the samplers run by the built chain"])
p("C30", "Any input is handled or refused with an error, never with a panic",
  "No sampler, list operation, configuration call or builder operation panics, overflows or loops forever, whatever the parameter values (NaN, infinities, extreme integers), logits (including infinities, and NaN introduced later), flags, histories and strings. It returns normally or with an error.",
  ["inputs", "configurations", "histories"], "every value of every parameter and input, in any sequence of operations",
  "Tests only use ordinary values.",
  ["src"], [("error returns, saturating arithmetic", "src")], observe=["normal return"])
p("C31", "Results depend on the logits, not on how tokens are numbered or listed",
  "Renaming the tokens consistently in the list, the biases and the history renames the outcome and changes nothing else: the same logits survive in the same order and the corresponding token is picked. Presenting the tokens of a list with distinct logits in another order, sorted or with softmax already applied gives the same survivors and the same token.",
  ["inputs", "programs", "configurations"], "every injective renaming, every permutation and preparation of the input, every chain in the documented order",
  "Tests always use token ids equal to positions.",
  ["src/samplers", T, CH], [("tokens are identified by token_id, never by position", "src/samplers")], observe=["survivors and token of the two runs"])
p("C32", "The hooks and overrides of a caller's own configurable sampler are honoured",
  "When an option of a configurable sampler is set, its pre-set hook is called exactly once with the definition of the option the name resolved to and the value about to be set, before anything is set, and may replace the value or refuse the call, in which case nothing changes; its post-set hook is called exactly once after the new value is in place, and not at all if setting fails. Configuring from a string sets each part, in order, through the sampler's own set operation, with the resolved option name and the parsed value, so overrides apply; the chain builder configures a sampler through its own configure operation.",
  ["programs", "histories", "configurations"], "every option table, every hook decision (pass, replace, refuse), every sequence of set and configure calls, direct and through the builder",
  "No test defines a sampler with hooks or overridden operations.",
  [cfg("configurable"), cfg("building"), cfg("metadata")], [("ConfigurableSampler::set_option, pre_set_option, post_set_option", cfg("configurable")), ("configurable_sampler::configure", cfg("configurable")), ("BuildableSampler configure forwarding", cfg("building"))], observe=["the calls recorded by the caller's sampler, its option values"])
p("C33", "Nothing is carried over from earlier calls but what is documented",
  "Only greedy and random selection's last token, mirostat's mu and last token and a chain's last token survive a call. A sampler, list or chain that has been used before therefore treats the next input exactly as a never-used one with the same options does, whatever it processed before: lists resembling earlier ones, the same list again, growing or sliding histories, options and biases edited between calls, calls that failed. A list does not remember values that have been overwritten since.",
  ["histories", "inputs", "configurations"], "every sampler, every sequence of earlier inputs, especially ones that agree with the current one in length, ends, tokens or history",
  "Tests use each sampler instance once or twice.",
  ["src/samplers", T, CH], [("sample() of every sampler", "src/samplers"), ("Logits::ensure_sorted / ensure_softmax", T)], observe=["list bits, token and error of a used and a never-used instance"])
p("C34", "An option left alone has its documented default",
  "A sampler made without saying otherwise (by default(), in a builder slot, or by a mirostat constructor that leaves options out) has the documented default in every option that was not given, whichever of the others were given, how and in which order, except that mirostat's mu follows tau as twice its value until mu itself is set. It reads, and behaves on every input, exactly as one constructed with all those values written out, and reports no token before its first call. (Defaults: penalty 1.1 and last_n 64 for repetition; frequency and presence 0, last_n 64; flat and stacking 0, min_length 4, tolerance 0, max_merge 1, last_n 64 for sequence repetition; k 40; p 0.9 for top-P, 0.05 for min-P, 1.0 for locally typical; z 1.0; a1 0.2, a2 2.0; min_keep 1 everywhere; temperature 1.0; tau 5, eta 0.1, mu 10, m 100; no biases.)",
  ["configurations", "inputs", "histories"], "every sampler, every subset of its options given by every route, every sequence of lists and histories, also beyond the default windows",
  "Tests construct nearly every sampler with all options given.",
  ["src/samplers", cfg("building")], [("impl Default and new() of every sampler, with their documentation", "src/samplers"), ("slot factories", cfg("building"))], observe=["get_option, list bits and token against a fully specified twin"])
p("C35", "A refused configuration says what was refused and why",
  "Setting, reading or configuring an option under a name that fits no option, or setting it to a value of another type, is refused as an unknown option or bad type; a name that is a prefix of several options and equals none as ambiguous; an option that cannot be accessed as inaccessible (in a configuration string also as unknown); a value out of the range of the option's number type as a conversion failure. Each of these errors carries the name asked for or the option it stands for, and its text mentions it. An error of the sampler's own hook comes through as it is. The chain builder tells an unknown slot, a static slot and a failed configuration apart, names the slot, and hands on the sampler's error inside.",
  ["inputs", "configurations", "programs"], "every option table, number type, name, value, configuration string and slot list, with hooks that refuse",
  "Tests look at errors only as is_err, if at all.",
  [cfg("configurable"), cfg("metadata"), cfg("building"), cfg("mod")], [("ConfigureSamplerError", cfg("mod")), ("find_option_definition", cfg("metadata")), ("set_option, get_option, configure", cfg("configurable")), ("BuildSamplersError", cfg("building"))], observe=["the kind, carried name and text of the error"])
p("C36", "Only the differences between logits matter to filters and selection",
  "Adding the same constant to every logit of a list changes nothing about the outcome of a chain of filters, temperature, biases, subtracting penalties and selection: the same tokens survive in the same order with the same probabilities, the same token is picked with the same generator, mirostat adapts in the same way, and the logits left differ by that constant (divided by the temperatures applied). (Only the repetition penalty looks at the sign of a logit.)",
  ["inputs", "configurations", "histories"], "every list, every constant, every chain without the repetition penalty, repeated steps",
  "Tests use one list of absolute values per sampler.",
  ["src/samplers", T, CH], [("softmax relative to the largest logit", T), ("filters work on probabilities or ranks", "src/samplers")], observe=["survivors, probabilities, logits and token of the two runs"])
p("C37", "A token at -inf might as well not be in the list",
  "Adding tokens with logit -inf to a list, in any number and place, changes nothing for the others in a chain of biases, penalties, temperature, top-K, top-P, min-P, top-A, locally typical, and greedy, random or mirostat 2 selection: of the tokens that are not banned the same survive in the same order with the same logits and probabilities, and the same one is picked with the same generator (the order of equal logits, and which of them greedy picks, aside).",
  ["inputs", "configurations", "histories"], "every list with at least one token that is not banned, every number and place of banned ones, every such chain, repeated steps",
  "Tests have no list with and without banned tokens.",
  ["src/samplers", T, CH], [("probability zero for -inf", T), ("counts, masses and thresholds over tokens in descending order", "src/samplers")], observe=["survivors, probabilities and token of the two runs"])
p("C38", "A failed sampling call says what failed and leaves nothing half done",
  "When a sampler is refused the generator or the history it asks for, the call fails with exactly the error of the resource provider (a missing-resource error naming rng or last_tokens where there is none, an interruption with its payload). A failed call reports no token, changes no option (mirostat's mu included), history or generator state, alters no token's id or logit, removes none unless it is mirostat, and leaves the list's flags true; a penalty that fails leaves the list untouched. Once the resource is at hand, repeating the call gives what it would have given without the failure (mirostat 1 on the original list).",
  ["fault_sequences", "inputs", "configurations"], "every sampler, every list, every request refused with every kind of error, repeated calls",
  "Tests use resources that never fail.",
  ["src/samplers", "src/resource.rs", T], [("error propagation out of with_rng_mut and with_last_tokens", "src/samplers"), ("HasSamplerResources", "src/resource.rs"), ("SamplerError", T)], observe=["error, list, options, generator and history after the failure and after the second try"])
p("C39", "The thousandth step of a generation is made like the first",
  "However many calls a sampler, a chain, a chain of chains or a shared sampler has served, and however the history has grown, each further call gives exactly the list, flags, token, error, use of the generator and mu that samplers made for that one call (with the same parameters and the mu reached so far) give on the same list, history and generator: nothing counts calls, wears out, starts over or drifts in the course of a long generation.",
  ["histories", "inputs", "configurations"], "every number of steps, every sampler and chain, histories that grow or slide, with empty lists and refused calls in between",
  "Tests call each sampler once.",
  ["src/samplers", CH, T], [("SamplerChain::sample", CH), ("mu and last token", "src/samplers/mirostat.rs"), ("forwarding by Box and Arc<Mutex<dyn Sampler>>", T)], observe=["list, token, error, generator and mu after every step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
