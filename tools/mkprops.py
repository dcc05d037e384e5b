import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
N="src/psdd_node.cpp";M="src/psdd_manager.cpp";U="src/psdd_unique_table.cpp";G="src/pgm_compiler.cpp"
p("P01","Evaluating evidence returns the exact total weight of the matching worlds",
"For every locally normalised PSDD and every assignment to any subset of its variables, evaluating that evidence returns the sum, over all complete assignments that agree with it, of the product of the parameters the assignment selects; with all variables assigned it is that assignment's probability, with none it is 1, and it is zero exactly when nothing in the support agrees. The answer depends only on the represented distribution and the values of the mentioned variables, whether the query is made from the root or from a prepared node list.",
["inputs"],"every PSDD (vtree shape, elements, sharing, parameters incl. zeros), every evidence mask and every evidence value",
"tests evaluate a few fixed networks at fixed numeric parameters; the claim ranges over all real parameter values, masks and structures",
[N,"src/psdd_parameter.cpp"],[("Evaluate bottom-up pass over the serialised nodes","psdd_node_util::Evaluate"),("log-domain sum and product","PsddParameter operators")],["return value of Evaluate (both overloads)"])
p("P02","Multiplying two PSDDs gives the normalised product and its constant",
"For any two PSDDs with positive parameters over the same vtree, multiplying them yields a PSDD and a constant whose product equals, at every complete assignment, the product of the two inputs' weights; the result is locally normalised with respect to that constant. If and only if no assignment has positive weight in both inputs, the result is the null PSDD with constant zero.",
["inputs"],"every pair of PSDDs on a common vtree (equal or different operands, any flags), every complete assignment, all positive parameters",
"tests check one or two products at fixed numbers; agreement is needed at every assignment for every pair of structures and parameters",
[M,"src/psdd_parameter.cpp"],[("recursive apply with computation cache","MultiplyWithCache / PsddManager::Multiply"),("conformed decision construction","GetConformedPsddDecisionNode")],["pair returned by Multiply"])
p("P03","The most probable explanation is a true maximum and reports its own weight",
"For every PSDD that has some positive-weight assignment, the most-probable-explanation query returns a complete assignment whose weight equals the reported value, and no assignment has a larger weight, including with zero parameters and ties. Variables outside the PSDD stay false in the returned assignment.",
["inputs"],"every PSDD structure and parameters (incl. zero and tied ones) and every competing assignment",
"existing MPE tests use a handful of numeric networks; optimality quantifies over all parameter orderings and all competing assignments",
[N],[("max-product upward pass and traceback","psdd_node_util::GetMPESolution")],["pair returned by GetMPESolution (both overloads)"])
p("P04","Variable marginals agree with evaluation and are normalised",
"For every locally normalised PSDD, the marginal reported for each variable and each value equals the result of evaluating that single-variable evidence, the two values of a variable sum to one, and exactly the variables of the PSDD are reported. The first component is the probability of false and the second of true.",
["inputs"],"every PSDD structure with shared nodes, all parameters, every variable",
"tests look at a few fixed networks; correct accumulation over shared nodes must hold for any sharing pattern and any parameters",
[N],[("downward derivative pass","psdd_node_util::GetMarginals")],["map returned by GetMarginals"])
p("P05","Model counting and every consistency test agree with the support",
"For every PSDD, the model count is exactly the number of complete assignments in its support, also when that number exceeds machine integers. Each consistency test, whether it takes a partial assignment as a map, a complete assignment, or a mask with values, and each activation pass, answers true exactly when some supported assignment agrees with what it was given.",
["inputs"],"every PSDD structure with positive parameters, every partial or complete assignment, model counts beyond 64 bits",
"tests count a few small formulas; agreement of five different entry points over all structures and assignments is never compared",
[N],[("recursive and bottom-up consistency","PsddNode::IsConsistent, psdd_node_util::IsConsistent, SetActivationFlag"),("big-integer counting","psdd_node_util::ModelCount")],["return values", "activation flag of the root"])
p("P06","Importing a logical constraint keeps exactly its models",
"Turning a logical constraint (an SDD, on the whole or a sub-vtree, or a set of clauses) into a PSDD yields a PSDD over the target vtree whose support is exactly the constraint's models under the variable correspondence, each with weight one; an unsatisfiable constraint yields the null PSDD and a valid one the unconstrained PSDD. Nothing is left attached to the caller's vtree.",
["inputs"],"every Boolean function of the bounded number of variables, every vtree shape and variable renaming, every complete assignment",
"tests compile a few formulas; the claim covers every Boolean function and every vtree, including skipped vtree levels on either side",
[M,"src/cnf.cpp",N],[("conversion with normalisation","PsddManager::ConvertSddToPsdd, FromSdd"),("clause compilation","CNF::Compile"),("true node filling","GetTrueNode / NormalizePsddNode")],["support of the returned PSDD"])
p("P07","Exporting a PSDD to logic keeps exactly its support",
"For every PSDD and every one-to-one variable renaming, the exported logical constraint is satisfied by a complete assignment if and only if that assignment is in the PSDD's support. The PSDD is unchanged afterwards and can be exported or queried again with the same result.",
["inputs"],"every PSDD structure and renaming, every complete assignment",
"only round trips of a few fixed formulas are tested; the equivalence ranges over all assignments and renamings",
[N],[("bottom-up conjoin/disjoin","psdd_node_util::ConvertPsddNodeToSddNode")],["models of the returned SDD"])
p("P08","Equal nodes are shared, different nodes never are",
"Within one manager, requesting a node twice with the same variable or literal, children, parameters and flag returns the same node, whatever the order of the elements or the other requests in between; requests that differ in any of these return different nodes with different identifiers, and a returned node always carries exactly the requested content.",
["inputs","histories"],"every sequence of node requests up to the bound (literals, top nodes, decision nodes with all element orders, parameters, flags)",
"tests never compare node identity over request histories; order comparisons over symbolic parameters decide the lookup",
[U,M,N,"src/psdd_parameter.cpp"],[("ordered unique table per vtree position","PsddUniqueTableImp::GetUniqueNode"),("node comparator","PsddUniqueTableSetFunctional"),("element sorting","PsddDecisionNode constructor")],["pointer identity, node_index, content accessors"])
p("P09","Collecting unused nodes never affects anything still in use",
"After discarding unused nodes with any set of roots kept, every node reachable from a kept root still exists with the same content, answers every query as before, and is found again when requested. A discarded node is never handed out again: requesting its content creates a fresh node with a new identifier.",
["histories","inputs"],"every set of kept roots, every history of creation, collection and re-creation up to the bound",
"the garbage collector is marked untested in the source; the claim covers all root sets and histories",
[U,M,N],[("sweep of the unique table by reachability","DeleteUnusedPsddNodes"),("reachability","GetCoveredPsddNodes")],["identity and content of nodes after collection"])
p("P10","A PSDD written to a file and read back is the same distribution",
"For every PSDD, writing it to a file and reading it back with any manager over the same vtree gives a PSDD with the same support and with every parameter equal to the original within the printed precision, including zero parameters and shared nodes. The file lists children before parents with consistent ids and a correct node count, and the source PSDD is unchanged.",
["inputs"],"every PSDD structure, all parameters (incl. zeros), every complete assignment",
"tests do not write and re-read; structure, sharing and parameter placement must survive for every PSDD",
[N,M],[("writer","psdd_node_util::WritePsddToFile"),("reader","PsddManager::ReadPsddFile")],["file contents; evaluation of the read PSDD"])
p("P11","Learned parameters are the smoothed relative frequencies of the data",
"For every structure, every data set and every non-negative smoothing weight, each learned parameter equals the number of examples that reach and choose that branch plus the smoothing weight, divided by the corresponding total at that node, and the learned PSDD has the same structure over the requested flag. Examples outside the support contribute nothing, and learning leaves no trace: repeating it, or learning other data afterwards, gives the result of a fresh run.",
["inputs","histories"],"every data set of the bounded size over the structure's variables, every smoothing weight, repeated learning",
"tests learn a few fixed data sets; the counts must be right for every data set and every branch, and state must be reset between runs",
[M,N],[("batched value and context passes","PsddManager::LearnPsddParameters"),("per-node counters","IncrementDataCount / ResetDataCount")],["parameters of the learned PSDD"])
p("P12","Sampled parameters are normalised and keep the structure",
"For every structure or list of structures and every positive stream of random numbers, sampling parameters returns, for each input root and in the same order, a PSDD with the same support in which each node's parameters are the consumed numbers divided by their sum at that node. Nodes shared between the inputs stay shared, and the inputs are unchanged.",
["inputs"],"every structure, every list of roots at any vtree levels and in any order, every positive random stream",
"tests use one seeded generator and one root; the claim covers all streams and all root lists",
[M],[("parameter sampling","PsddManager::SampleParameters, SampleParametersForMultiplePsdds")],["returned PSDDs"])
p("P13","Moving a PSDD to another manager or a larger vtree preserves it",
"Loading a PSDD into a manager (same or different, over the same or an enlarged compatible vtree), raising a node to an ancestor vtree position, or building a decision node from parts below its own children preserves the weight of every assignment: variables that were not constrained become unconstrained, everything else keeps its parameter. The result conforms to the target vtree, carries the requested flag, and the source is unchanged.",
["inputs","configurations"],"every PSDD, source and target vtree position, flag, and complete assignment",
"tests only load or normalise a few fixed nodes; correctness is needed for every left/right position skipped",
[M],[("loading","PsddManager::LoadPsddNode"),("normalisation","NormalizePsddNode / GetTrueNode / GetConformedPsddDecisionNode")],["evaluation and vtree position of result"])
p("P14","Probability arithmetic is correct in the log domain and self-consistent",
"For all probabilities including zero, sum, product and quotient agree with real arithmetic within rounding, never produce NaN from valid operands (a zero divisor is not valid), and are the same whether done in place or not. Comparison is a consistent ordering: values equal within the stated resolution compare equal in both directions, otherwise exactly one is smaller, and the result of any operation compares like a freshly created value.",
["inputs"],"every pair of IEEE doubles in the probability range including minus infinity in the log domain, every operation",
"tests check a few numbers; extreme differences, zeros and in-place forms must all agree",
["src/psdd_parameter.cpp"],[("log-sum-exp with guards","PsddParameter::operator+ / +="),("quantised comparison key","PsddParameter constructor, comparison operators")],["parameter(), comparison results"])
p("P15","Vtree utilities preserve structure and variables",
"Copying a vtree (optionally renaming variables) gives an independent vtree of the same shape with mapped variables; projecting keeps exactly the requested variables with their relative structure; finding a sub-vtree returns the node with exactly the requested variables or nothing; listings contain every node once with parents first and variables in left-to-right order where promised. The input vtree is left as it was, with no attached data.",
["inputs"],"every vtree shape and variable labelling up to the bound, every variable subset and renaming",
"one small test covers sub-vtree lookup; shapes, subsets and renamings are unbounded",
[N,"include/psdd/psdd_node.h"],[("breadth first listing, copy, project, lookup","vtree_util")],["returned vtree"])
p("P16","The CSV reader is memory safe and parses every input faithfully",
"For every byte sequence, reading CSV rows from a string or a file terminates without touching memory outside its buffers. When every field is well formed (either unquoted and free of quotes, or quoted with the closing quote right before a delimiter, a line end or the end), the rows returned are those obtained by splitting at unquoted delimiters and line ends, with enclosing quotes removed, doubled quotes undoubled and carriage returns ignored. Rows with any number of fields and fields of any length are handled the same way.",
["inputs"],"every byte string up to the bound (all 256 byte values), plus long fields and rows around the growth thresholds",
"no test feeds the parser malformed or boundary-length input",
["src/csvparser.c"],[("row state machine with growing buffers","_CsvParser_getRow")],["returned fields; memory accesses"])
p("P17","Data sets keep exact multiplicities through reading, adding and writing",
"Reading a data file yields exactly the records in it with their multiplicities, the right number of examples and of variables; adding a record raises exactly its multiplicity; writing a data set and reading it back gives the same data set. Records given as lists of true variables are read the same way, out-of-range or malformed records are skipped, and entropy equals the average log relative frequency.",
["inputs","histories"],"every data set up to the bound (bits, duplicates, order), every sequence of additions",
"no test covers multiplicities, round trips or the sparse format",
["src/binary_data.cpp","src/csvparser.c"],[("record map","BinaryData::ReadFile, WriteFile, AddRecord, ReadSparseDataJsonFile")],["data(), data_size(), variable_size()"])
p("P18","Reading a factor graph file recovers exactly what the file says",
"For every well-formed UAI file, the reader returns the declared kind, the number of variables and factors, each factor's scope with one-based variable numbers in file order, and each table's entries in file order, independent of how entries are split over lines or separated by blank lines and spaces.",
["inputs"],"every well-formed file up to the bound: header, scopes, entry values, line layout",
"tests read fixed files; layouts and values vary freely in practice",
["src/uai_network.cpp"],[("line-based reader","UaiNetwork::read_file")],["accessors of the network"])
p("P19","Compiling one factor represents its table exactly",
"For every factor table of non-negative weights over any non-empty scope in any order and any vtree, the compiled PSDD times the returned constant equals the table entry selected by every complete assignment (the last listed variable being the fastest changing), independent of the variables outside the scope. Zero entries are outside the support, and a table that is zero everywhere yields the null PSDD with constant zero.",
["inputs"],"every table (incl. zero patterns) up to the bound, every scope order, every vtree, every assignment",
"the tests that touch factor compilation cannot run here and use fixed tables; zero patterns and scope orders are not covered",
[G],[("context-merging bottom-up construction","PgmCompiler::compile_factor")],["pair returned"])
p("P20","Compiling a network gives the normalised product and the partition function",
"For every factor graph whose factors each compile over the vtree, the compiled PSDD times the returned constant equals at every assignment the product of all factor entries, the constant being the partition function when every variable is mentioned; all compilation strategies and all collection frequencies give the same answer. If the product is zero everywhere, the answer is the null PSDD with constant zero.",
["inputs","configurations"],"every factor graph up to the bound, vtree, strategy, collection frequency, assignment",
"network compilation is not exercised by the runnable tests; strategies are never compared",
[G,M],[("factor ordering and multiplication","PgmCompiler::compile_network, compile_network_with_vtree, compile_network_dc")],["pair returned"])
p("P21","Reading a CNF file recovers exactly its clauses",
"For every DIMACS-style text with one clause per line, reading it gives exactly the listed clauses in order, each with its literals in order: comment and header lines contribute nothing, blank lines contribute nothing, the first zero on a line ends its clause (a missing one is supplied by the end of the line), and a line holding only a zero is the empty clause.",
["inputs"],"every text up to the bound over the DIMACS alphabet",
"clause files are only read in fixed form by tests",
["src/cnf.cpp"],[("line-based reader","CNF::CNF(filename)")],["clauses()"])
p("P22","Node listings cover exactly the reachable nodes, parents first",
"For every list of roots, the node listing contains every node reachable from them exactly once and nothing else, every node appears after all its parents in the listing, and a single root comes first. The reachable-node map contains the same nodes under their identifiers, and the reported size is the number of free parameters.",
["inputs"],"every node graph up to the bound and every list of roots (repeated, nested, at different vtree levels, any order)",
"tests only serialise single roots implicitly; ordering across several roots is never checked",
[N],[("worklist serialisation","psdd_node_util::SerializePsddNodes, GetCoveredPsddNodes, GetPsddSize")],["returned list"])
p("P23","Generated vtrees contain every variable exactly once",
"Whatever elimination order or hypergraph partition the external library returns within its contract, the vtree built from a factor graph is a proper binary tree containing each variable of the graph exactly once (for the hypergraph method: each variable some factor mentions), over which every factor can be compiled. In the elimination-order method each connected part is headed by whichever of its variables is eliminated last and independent parts stay in subtrees of their own. The external library is given the factor graph exactly, at every level of the recursion, and the working directory may have a name of any length.",
["inputs","configurations"],"every factor graph up to the bound, every elimination ordering, every admissible partition",
"the external libraries are absent here, so these files are only compiled, never run, by the tests",
["src/minfill_vtree.cpp","src/hypergraph_decomposition_vtree.cpp"],[("recursive split by components","VtreeFromGraph"),("recursive partition with context variables","FactorGraphToVtree")],["returned vtree","arguments of the partitioner call"])
p("P24","Direct sampling follows the represented distribution",
"For every locally normalised PSDD, drawing a sample consumes uniform numbers so that each assignment is produced exactly on a set of draws whose measure is the assignment's probability; in particular the drawn assignment always has positive probability, and draws decide each node independently. Variables outside the PSDD are left untouched.",
["inputs"],"every PSDD structure with symbolic parameters, every stream of uniform draws",
"no test exercises sampling; a seeded run cannot show that every draw maps to the right branch",
[N,"src/random_double_generator.cpp"],[("cumulative selection","PsddNode::DirectSample")],["assignment written"])
p("P25","Queries leave a PSDD unchanged and are repeatable in any order",
"Running any sequence of queries (evaluation, consistency, counting, most probable explanation, marginals, export, writing, size, multiplication, loading) on PSDDs that share nodes never changes their parameters, structure, or later answers: each query returns what it returns on a freshly built copy. No query leaves scratch data or activation marks on any node.",
["histories","inputs"],"every sequence of queries up to the bound, over PSDDs with shared nodes and every evidence",
"each test runs queries on fresh PSDDs; interference through shared scratch fields appears only across query sequences",
[N,M],[("scratch fields reset after each pass","user data and activation flag handling")],["answers and scratch fields after the sequence"])
p("P26","The inference program reports exactly the conditioned distribution",
"For every normalised PSDD over a vtree and every optional clause evidence file (with positive parameters where evidence is given), the command-line program prints the most probable assignment with its log probability, and the log probabilities of false and true of every variable, in the distribution conditioned on the evidence, listing every variable once in increasing order; contradictory evidence is reported as unsatisfied. It never crashes on well-formed inputs.",
["inputs","configurations"],"every small PSDD and clause set, every combination of query options",
"no test runs the command-line program",
["psdd_inference_main.cpp",M,"src/cnf.cpp"],[("main","psdd_inference_main.cpp")],["standard output"])
p("P27","Join-tree vtrees contain every variable exactly once",
"Whatever valid tree decomposition the external library returns, the vtree built by the join-tree method is a proper binary tree containing each variable of the factor graph exactly once, over which every factor can be compiled; the library is given the factor graph exactly.",
["inputs","configurations"],"every factor graph and every valid rooted tree decomposition of it",
"the external library is absent here, so this file is only compiled, never run",
["src/jointree_vtree.cpp"],[("post-order merge of bags","GetMinFillVtree")],["returned vtree"])
p("P28","The network compiler program writes exactly the compiled distribution",
"For every factor graph file and every vtree method or vtree file, the command-line program writes, next to the input, a vtree file (the very vtree named, when a vtree file is given) and a PSDD file that read back as the normalised distribution of the network (within the printed precision), and prints the log partition function; a network that is zero everywhere is reported and does not crash the program, whatever the length of the file name.",
["inputs","configurations"],"every factor graph up to the bound, every way to name the vtree, file names of any length",
"no test runs the command-line program",
["uai_compiler.cpp",G,M],[("main","uai_compiler.cpp"),("method dispatch","PgmCompiler::init_psdd_manager")],["files written","standard output"])
p("P29","A manager is self-contained",
"A manager works on its own copy of the vtree it was made from (same shape, given or mapped variables, nothing left attached to the original), and everything it builds, loads, reads, imports, samples or learns refers only to its own vtree and nodes, every node under an identifier of its own. So freeing the given vtree, the SDD manager of an import, or another manager a PSDD was loaded from or into never changes what it holds, answers or finds again.",
["inputs","histories"],"every vtree and variable mapping, every PSDD, every history of making nodes and ending other managers up to the bound",
"a stale reference to a freed object usually still reads well in a short test; ownership must hold for every structure and every way to make a node",
[M,N,U],[("vtree copy and mapping","PsddManager::GetPsddManagerFromVtree, GetPsddManagerFromSddVtree"),("node creation","PsddManager::LoadPsddNode, ConvertSddToPsdd, FromSdd, GetUniqueNode")],["vtree(), vtree_node, node_index and content of all nodes"])
p("P30","Random sources keep their range and scale and are determined by their seed",
"Uniform draws lie in the given range, which is reported exactly, and are the range applied to the unit draws of the same seed; gamma draws are never negative, have the mean alpha times beta, and scale with beta. The stream of a source depends on its seed alone (zero when none is given) and not on other sources made or used in between.",
["inputs","histories"],"every range and scale, every interleaving of draws from several sources up to the bound, the stated seeds",
"no test draws from two sources or changes the range",
["src/random_double_generator.cpp","include/psdd/random_double_generator.h"],[("engine and distribution per source","RandomDoubleFromUniformGenerator, RandomDoubleFromGammaGenerator")],["numbers generated"])
p("P31","Node records and the node table keep exactly what they were given",
"A node made through any constructor carries the given identifier, vtree position, flag (zero when omitted) and content with cleared counters, a counter passed by address advances by exactly one, and counts go to exactly the branch named until they are reset. Nodes of one type are equal exactly when content and flag are, and equal nodes hash alike. The table keeps one node per content, advances the identifier exactly when it keeps a new node, and discarding by flags keeps exactly the nodes whose flag is listed.",
["inputs","histories"],"every identifier, flag, literal and count, every pair of nodes and every table and list of flags up to the bound",
"tests build nodes through the manager only; direct construction, node comparison and discarding by flags are never tested",
[N,U],[("constructors, comparison, counters","PsddLiteralNode, PsddTopNode, PsddDecisionNode"),("sweep by flags","PsddUniqueTableImp::DeletePsddNodesWithoutFlagIndexes, GetUniqueNode")],["accessors, operator==, hash_value, pointers returned"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x["title"])<=80
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
print(len(P))
