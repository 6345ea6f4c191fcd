import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"hook_needed":None}}
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

p("P01","Every XBRL instance fact is reported once, with its exact aspects",
 "Opening an XBRL instance yields exactly one fact for every well-formed fact element of the instance, whether or not it has an id. Each fact carries the value, id, decimals/precision, concept, period, entity (scheme and identifier), unit (numerators and denominators) and dimensions that its element, context and unit declare. No fact is invented, merged, dropped or truncated.",
 ["inputs"],"every combination of fact attributes (id, value shape, nil, decimals/precision), context shape (instant/duration, date spelling, scheme, explicit/typed dimensions in segment or scenario), unit shape and fact multiplicity",
 "The tests that run offline never parse an instance; the end-to-end ones (which need the network) sample one hand-made filing. Fidelity has to hold for every combination of optional attributes and syntactic variants.",
 ["brel/parsers/XML/xml_facts_parser.py","brel/parsers/XML/xml_context_parser.py","brel/parsers/XML/characteristics/","brel/data/fact/in_memory_fact_repository.py","brel/brel_fact.py","brel/brel_context.py"],
 [("fact loop over contextRef elements","brel/parsers/XML/xml_facts_parser.py:parse_facts_xml"),("context assembly","brel/parsers/XML/xml_context_parser.py:parse_context_xml"),("period/unit/entity/dimension parsers","brel/parsers/XML/characteristics/"),("fact storage","brel/data/fact/in_memory_fact_repository.py")],
 ["Filing.open(...).get_all_facts() and the getters of Fact"])
p("P02","An inline XBRL report means the same as the equivalent plain XBRL instance",
 "Opening an inline XBRL document yields the same facts (value, concept, context, unit, decimals/precision, id, footnotes) as opening the plain XBRL instance that the inline document stands for. This is so wherever in the page the tagged elements, contexts, units, continuations and escaped or excluded content appear, and however the report is split over pages.",
 ["inputs"],"all placements and nestings of inline facts in XHTML, all attribute combinations, escape/exclude/continuation use, 1..2 inline documents",
 "No stable test opens an inline document; the statement relates two complete parsers over all page structures.",
 ["brel/parsers/XHMTL/","brel/parsers/xhtml_filing_parser.py"],
 [("inline fact collection","brel/parsers/XHMTL/xhtml_parse_facts.py:parse_facts_xhtml"),("text content","brel/parsers/XHMTL/elements/parse_non_numeric.py"),("numbers","brel/parsers/XHMTL/elements/parse_non_fraction.py")],
 ["Filing.open(page).get_all_facts()"])
p("P03","Inline numbers: displayed text, format, scale and sign give the exact value",
 "The value of a numeric inline fact is exactly the decimal number that its displayed text denotes under the declared number format, multiplied by ten to the power of the scale, and negated if the sign says so, with no rounding and no loss of digits; zero stays zero. Text that the format does not admit is reported as an error and never turned into a different number.",
 ["inputs"],"every supported numeric transformation format of every registry version x displayed digit strings x grouping x scale x sign x nesting",
 "A handful of numbers cannot cover the product of formats, separators, digit counts, scales and signs, where errors are of the rounding/boundary kind.",
 ["brel/parsers/XHMTL/elements/parse_non_fraction.py","brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
 [("normalisation, scale and sign","brel/parsers/XHMTL/elements/parse_non_fraction.py"),("numeric transformations","brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")])
p("P04","Inline dates and fixed values: every supported format yields the denoted value",
 "Text tagged with a supported date format (day/month/year orders, month names of every supported language, full or two-digit years, recurring dates, era and Hindi calendars, legacy names) becomes exactly the ISO date, month or recurring date that it denotes; boolean/fixed formats become their fixed value. Text that is not an admissible date of the format is reported as an error, never silently turned into a different date and never a crash.",
 ["inputs"],"every format in the registry x every month x every day class x year form x separator/case/spelling variant",
 "The registry has over a hundred format names with tables of month names; a test samples a few, an error hides in any single entry.",
 ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py","brel/parsers/XHMTL/elements/parse_non_numeric.py"],
 [("transformation registry","brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")])
p("P05","Continuations are assembled completely, in chain order, and always terminate",
 "A text fact or footnote that continues elsewhere has as value the concatenation of its own content and of each continuation in chain order, each piece once, whatever the document order, nesting, exclusion or escaping of the pieces. Every chain, including a broken or circular one, is processed in finite time with the defect reported, and never affects other facts.",
 ["inputs","histories"],"all continuation graphs over up to 4 pieces (chains, forks, shared tails, missing targets, cycles), all document orders and nestings",
 "Needs every graph shape over pieces and every document order; tests have none.",
 ["brel/parsers/XHMTL/elements/parse_continuation_chain.py","brel/parsers/XHMTL/elements/parse_non_numeric.py"],
 [("chain assembly","brel/parsers/XHMTL/elements/parse_continuation_chain.py")])
p("P06","Nothing bleeds between facts, contexts, units, entities, prefixes or documents",
 "What is reported about one fact depends only on that fact's own element, context and unit and on the namespaces in scope there: adding, removing or reordering other facts, contexts or units, or other documents of the report that reuse the same ids, prefixes or identifiers for different things, changes nothing in it. In particular two different units, entities, periods, dimensions or members are never reported as the same.",
 ["inputs","histories"],"all pairs/sequences of facts built from a pool of colliding ids, identifiers, schemes, prefixes and values, in one or two documents, in every order",
 "Sharing errors appear only for particular pairs of items in a particular order (the cache is filled by whichever comes first).",
 ["brel/data/characteristic/in_memory_characteristic_repository.py","brel/data/aspect/in_memory_aspect_repository.py","brel/parsers/XML/characteristics/","brel/data/context/in_memory_context_repository.py","brel/parsers/XHMTL/xhtml_parse_facts.py"],
 [("characteristic cache","brel/data/characteristic/in_memory_characteristic_repository.py"),("aspect cache","brel/data/aspect/in_memory_aspect_repository.py")])
p("P07","Taxonomy elements are reported once, with the right kind and attributes",
 "Every element declaration of every taxonomy schema in the report that declares an XBRL item appears exactly once among the report elements, as concept, abstract, hypercube, dimension, member or line items according to its declaration (not to the relationships it takes part in), with its declared name, data type, period type, balance and nillability; typed dimensions carry their domain type. Non-item declarations are not reported.",
 ["inputs"],"all combinations of declaration attributes (substitution group, abstract, type, period type, balance, nillable, name pattern, id) and of dimensional relationships, over 1..2 schemas in any order",
 "The classification is a decision table over several attributes plus relationships; tests cover a few rows of it.",
 ["brel/parsers/XML/xml_report_element_parser.py","brel/parsers/XML/xml_report_element_factory.py","brel/reportelements/","brel/parsers/XML/networks/i_xml_network_factory.py","brel/networks/definition_network.py","brel/data/report_element/"],
 [("classification","brel/parsers/XML/xml_report_element_factory.py"),("concept attributes","brel/reportelements/concept.py:_from_xml"),("promotion through networks","brel/parsers/XML/networks/")])
p("P08","Lookups and filters agree with the complete listings",
 "Every lookup by name (prefixed, expanded or as an object), every typed listing and every fact filter returns exactly the items of the complete listings that match, for every name form under which the item is known; a name that is not in the report is answered with an explicit not-found error rather than with another item. Each fact is found by the lookups for its own concept and by no other.",
 ["inputs"],"all small universes of schemas with equal local names in different namespaces, several prefixes per namespace, and every name form of present and absent items",
 "Name resolution errors show only for particular combinations of equal local names, prefixes and name spellings.",
 ["brel/brel_filing.py","brel/services/report_element/report_element_service.py","brel/data/report_element/","brel/qnames/"],
 [("fuzzy and exact lookups","brel/services/report_element/report_element_service.py"),("filters","brel/brel_filing.py"),("name equality","brel/qnames/qname.py")])
p("P09","Networks mirror the declared relationships exactly",
 "For every role and link type the reported network contains exactly the parent-child pairs declared by the arcs (those that a root reaches), each with the order, weight, preferred label and arc role of its own arc, children in ascending order, and exactly the elements without an incoming arc as roots. The traversals of a network (all nodes, descendants, printing, conversion to a dictionary) visit every node, and terminate on every relationship graph.",
 ["inputs"],"all directed graphs on up to 4 elements (including several parents, several arcs per locator, shared locators, duplicate arcs, cycles) with all small assignments of order/weight/preferred label",
 "A tree-shaped example cannot show errors with several parents, fractional orders, equal orders or cycles.",
 ["brel/parsers/XML/networks/","brel/networks/","brel/utils/print_networks.py"],
 [("graph construction","brel/parsers/XML/networks/xml_extended_link_parser.py:parse_xml_link"),("node factories","brel/parsers/XML/networks/*_factory.py"),("traversals","brel/networks/i_network.py, brel/networks/i_network_node.py")])
p("P10","How relationships are split over links and files does not change the networks",
 "The networks reported for a role are the same however its arcs are distributed over extended links and linkbase files, and in whatever order those links, files, locators and arcs appear. Networks that are reported per link (labels, references, footnotes) are the same taken together; only the order of siblings with equal order may follow the documents.",
 ["inputs","configurations"],"all trees up to 4 elements x all distributions of their arcs over up to 3 links/files x all orders of those",
 "Only exhaustive permutation of the distribution and of the order exhibits a result that depends on it.",
 ["brel/parsers/utils/network_utils.py","brel/parsers/XML/networks/xml_networks_parser.py"],
 [("network combination","brel/parsers/utils/network_utils.py:combine_networks")])
p("P11","Labels and references are attached to exactly their element",
 "Every label and reference resource linked to a report element is reported on that element exactly as written (text, language, role, parts) and on no other element, and the label chosen for an element in a requested language is a label of that element in that language whenever one exists.",
 ["inputs"],"all assignments of up to 4 label/reference resources (language x role x text) to up to 3 elements, through shared or separate arcs, links and files",
 "Cross-attachment or loss depends on particular sharing of locators, resources and arcs.",
 ["brel/parsers/XML/networks/xml_label_network_factory.py","brel/parsers/XML/networks/xml_reference_network_factory.py","brel/resource/","brel/reportelements/i_report_element.py"],
 [("label attachment","brel/parsers/XML/networks/xml_label_network_factory.py:update_report_elements"),("resource parsing","brel/parsers/XML/networks/xml_resource_parser.py")])
p("P12","Footnotes connect exactly the facts and footnotes that were declared",
 "For plain and inline reports alike, the footnote networks contain, per link role and arc role, exactly the declared fact-to-footnote and fact-to-fact relationships (those that a root reaches), with complete footnote text, language and order. Relationships that name several sources and targets mean their full cross product, and a relationship with an unknown end is reported as an error without disturbing the others.",
 ["inputs"],"all relationship graphs over up to 3 facts and 2 footnotes x link roles x arc roles x orders x both syntaxes",
 "Tests have one footnote resource and no footnote network.",
 ["brel/parsers/XML/networks/xml_footnote_network_factory.py","brel/parsers/XHMTL/networks/","brel/resource/brel_footnote.py"],
 [("inline footnote networks","brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py"),("xml footnote networks","brel/parsers/XML/networks/xml_footnote_network_factory.py")])
p("P13","Every declared role is one component holding exactly its own networks",
 "The components of a report are exactly its declared roles, each once, with the declared definition text; the presentation, calculation and definition network of a component are exactly those whose links carry its role, and a network of a kind that the role does not declare as its use is reported as an error. Concept hierarchies of one role never appear under another.",
 ["inputs"],"all sets of up to 3 roles x declared uses x links present per kind x schema/linkbase split",
 "Assignment of networks to roles has to be right for every combination of declared uses and present links.",
 ["brel/parsers/XML/xml_component_parser.py","brel/brel_component.py","brel/data/component/"],
 [("component assembly","brel/parsers/XML/xml_component_parser.py")])
p("P14","Calculation checks accept exactly the consistent calculations",
 "The balance check and the aggregation check of a calculation network accept a network and a set of facts if and only if all concepts have a balance and the declared weights agree with the balances of parent and child, respectively every reported total equals, wherever each of its contributors has one numeric value in the same context and unit, the weighted sum of those contributors in exact decimal arithmetic. They never fail with an exception on missing, duplicate or non-numeric facts and never depend on the order of facts or arcs.",
 ["inputs"],"all calculation trees up to 4 concepts x weights x balances x fact subsets over up to 2 contexts x values including decimal fractions",
 "The tests check one consistent and one inconsistent tree with float-friendly numbers.",
 ["brel/networks/calculation_network.py","brel/networks/calculation_network_node.py"],
 [("balance and aggregation","brel/networks/calculation_network.py")])
p("P15","The report's document set is found completely, each document once",
 "Opening a report reads exactly the documents reachable from its entry files through schema imports, includes, schema/linkbase/role references, schema location hints and locators, resolved relative to the referring document and through the package catalog, each exactly once under whatever spelling it is referenced, and terminates on every reference graph. References inside comments are not followed, documents in any declared encoding are read, and a missing or malformed document is reported as an error.",
 ["inputs","configurations"],"all reference graphs on up to 4 documents (cycles, diamonds, self references) x relative/parent/absolute/remote/catalog spelling x reference element kinds",
 "The few stable tests touch no discovery; closure, cycles and path normalisation must hold for every graph.",
 ["brel/services/xml/xml_service.py","brel/services/file/file_service.py","brel/parsers/XML/xml_parse_catalog.py","brel/parsers/path_loaders/","brel/contexts/factory.py","brel/data/uri_rewrite/"],
 [("recursive discovery","brel/services/xml/xml_service.py:add_etree_recursive"),("catalog","brel/parsers/XML/xml_parse_catalog.py"),("path loading","brel/parsers/path_loaders/")])
p("P16","The document cache never changes what a report contains",
 "Whatever has been opened before, by this or another process, and wherever an earlier open or download was interrupted or failed, opening a report gives the same result as opening it with an empty cache: local files are always read as they are now, remote documents are complete or fetched again, and documents at different addresses never stand in for each other. Documents already cached completely are not fetched again.",
 ["histories","crash_points","fault_sequences"],"all operation histories (open A, open B, edit, fetch failure, crash at every file operation and byte prefix) up to a bounded length",
 "Requires enumerating histories with crashes in the middle of writes; no test touches the cache.",
 ["brel/data/file/pyfs_file_repository.py","brel/services/file/file_service.py","brel/parsers/utils/file_utils.py","brel/services/xml/xml_service.py"],
 [("persistent cache","brel/data/file/pyfs_file_repository.py"),("download","brel/services/file/file_service.py:download_and_add_file")],
 None,[("document cache","files under ~/.brel/dts_cache, surviving the process","brel/data/file/pyfs_file_repository.py")])
p("P17","The result of opening a report is deterministic",
 "Opening the same files gives the same facts, elements, networks, components, errors and tables, in the same order, in every process and on every machine, independent of hash randomisation, directory listing order and of any internal set iteration order.",
 ["schedules","configurations"],"all iteration orders of every internal set up to a bound, all directory listing orders, several hash seeds",
 "The suite pins PYTHONHASHSEED=0 and so sees one of the orders.",
 ["brel/parsers/XML/networks/xml_extended_link_parser.py","brel/networks/","brel/parsers/XHMTL/networks/","brel/parsers/path_loaders/folder_path_loader.py","brel/services/xml/xml_service.py"],
 [("set use in network construction","brel/parsers/XML/networks/xml_extended_link_parser.py"),("folder listing","brel/parsers/path_loaders/folder_path_loader.py")])
p("P18","Filings opened together do not influence each other",
 "Any number of reports can be open at the same time, opened and queried in any interleaving and from several threads; each behaves exactly as if it were the only one. Settings made for one report do not affect another, and only library-wide settings affect all.",
 ["histories","schedules"],"all interleavings of open/query/configure operations on 2..3 reports up to a bounded length; all thread switch points at file operations up to a preemption bound",
 "Interference is a property of interleavings; tests open one filing at a time.",
 ["brel/brel_filing.py","brel/contexts/filing_context.py","brel/config/brel_config.py","brel/characteristics/brel_aspect.py","brel/services/translation/"],
 [("per-filing context","brel/contexts/filing_context.py"),("library configuration","brel/config/brel_config.py"),("shared core aspects","brel/characteristics/brel_aspect.py")])
p("P19","A malformed item is reported and stays local",
 "For every single defect in a report (missing or dangling reference, malformed context, unit, period, dimension, number, date, link or resource) opening still succeeds, the defect is recorded as an error whose context is the place of the defect, every fact, element, label, network and component that does not depend on the defective item is reported exactly as without the defect, and nothing is made up for the items that do: they are left out or lack the defective part. A report without defects has no errors.",
 ["fault_sequences","inputs"],"every single defect of a catalogue, and every pair of defects, injected into otherwise valid reports",
 "Each defect has its own code path and the tests inject none.",
 ["brel/errors/","brel/parsers/","brel/data/errors/"],
 [("error recording","brel/errors/error_factory_registry.py, brel/data/errors/in_memory_error_repository.py"),("skip logic","brel/parsers/XML/xml_facts_parser.py, brel/parsers/XML/xml_context_parser.py, brel/parsers/XHMTL/xhtml_parse_facts.py")])
p("P20","Tables and dictionaries show exactly the facts, elements, labels and components",
 "The tables and dictionary forms of facts, core facts, report elements, components and labels have exactly one row per item, in listing order, whose cells are that item's own aspects, dimensions, value and id, with nothing shifted, merged or lost between columns; an aspect an item does not have is left empty. Core tables contain exactly the facts without dimensions.",
 ["inputs"],"all multisets of up to 4 facts over a pool of aspect combinations, with and without labels in several languages",
 "Column collisions and shifts depend on the combination of aspects and labels present together.",
 ["brel/brel_filing.py","brel/brel_fact.py","brel/brel_context.py","brel/reportelements/","brel/brel_component.py"],
 [("table generation","brel/brel_filing.py:__generate_pandas_df_from_elements"),("row conversion","brel/brel_context.py:convert_to_df_row")])
p("P21","Language preferences are honoured in the documented order",
 "Output uses, for every piece of text, the first language of the preference order (call, report, library, then if allowed system language, report languages and language-neutral default) for which text exists; languages that are not allowed are never used, and regional variants match their base language exactly when locale matching is off. Setting preferences changes only the language of the output, never its content.",
 ["configurations","inputs"],"all settings of the language options at the three levels x available label/translation languages x locale variants",
 "The product of three preference levels, five switches and available languages is far beyond sampled cases.",
 ["brel/brel_filing.py","brel/services/translation/","brel/config/"],
 [("preference order","brel/brel_filing.py:get_preferred_languages"),("translation lookup","brel/services/translation/translation_service.py")])
p("P22","EDGAR filings are selected exactly, with a reliable metadata cache",
 "open_edgar(cik, form, date) opens, from its own accession folder, exactly the XBRL filing with that exact form and report date that the recent filings of the company's SEC submissions index list (without a date the one with the latest report date; the first listed on ties); it raises ValueError when there is none, and for an invalid CIK, form or date without touching network or cache. The index is downloaded when the cached copy is missing, unusable or older than a day, and is otherwise used without network. A failed, interrupted or unusable download or a damaged cached copy never makes this or a later call return another filing, and never makes later calls fail.",
 ["histories","crash_points","inputs"],"all small submission indexes x all queries; all short histories of calls, index changes, ages, damages and server failures; all crash points and single file faults of a download; a second call at every file operation",
 "The only EDGAR tests need the network.",
 ["brel/utils/edgar.py"],
 [("selection and cache","brel/utils/edgar.py")])
p("P24","Printed facts, networks and components show exactly what they contain",
 "pprint of facts prints one row per fact with each of its aspects, dimensions, its value and its id in the column of that name; pprint of networks prints one line per node and parent, nested and ordered as in the network, with the element's name, the resource's text, and the weights; pprint of components prints the address, the definition and the networks of each component. Texts from the report are printed as they are: nothing is lost, altered or interpreted as formatting. Printing never fails on a report that opened without errors.",
 ["inputs"],"all small fact lists, network graphs, resources and components x texts with special characters",
 "The tests print nothing, or look at nothing that is printed.",
 ["brel/utils/"],
 [("printing","brel/utils/pprint.py")])
p("P25","Values convert to their types exactly or not at all",
 "get_value() gives the value of a fact as int, float, bool or str according to the data type of its concept, and it is exactly the value that its text denotes in XML Schema; is_numeric, is_integer and is_boolean agree with that data type. int(), float(), bool() and the older get_value_as accessors agree with each other, whatever the data type. A text that denotes no value of the requested type raises ValueError instead of giving some value.",
 ["inputs"],"every data type x boundary texts; all texts up to a length over digits, signs, separators, letters and spaces",
 "The tests convert a few well-formed values.",
 ["brel/brel_fact.py","brel/reportelements/concept.py"],
 [("typed accessors","brel/brel_fact.py"),("data types","brel/reportelements/concept.py")])
p("P26","Names and aspects compare equal exactly if they mean the same",
 "Qualified names, concepts, aspects, periods, entities, units, dimension values and contexts of facts compare equal exactly if they denote the same thing (the same namespace and local name, identifier and scheme, dates, measures, dimension and value), within one report and between reports that are open together, plain or inline, whatever prefixes, ids and orders their documents use. Comparisons are symmetric and never fail, and hashable objects that are equal have the same hash.",
 ["inputs"],"all pairs of facts with few differing aspects x one or two reports, plain or inline, with other prefixes and ids",
 "The tests compare a few objects with themselves.",
 ["brel/characteristics/","brel/brel_context.py","brel/qnames/qname.py"],
 [("contexts","brel/brel_context.py"),("aspects","brel/characteristics/brel_aspect.py")])
p("P23","Table linkbases become complete, correctly ordered table structures",
 "For every table declared in a table linkbase the reported table has exactly the declared breakdowns on their declared axes, with rule, concept-relationship, dimension-relationship and aspect nodes nested and ordered as the arcs say, and their labels and filters; missing optional attributes take the specified defaults. Malformed tables are reported as errors and do not prevent the report from opening.",
 ["inputs"],"all table trees up to a small size x axes x orders x node kinds x missing optional attributes",
 "No test parses a table linkbase.",
 ["brel/parsers/XML/table_linkbase/","brel/parsers/XML/formula/","brel/table_linkbases/"],
 [("table linkbase parsing","brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py")])
if __name__=="__main__":
    import re
    for d in P:
        n=len(re.findall(r"[.](?:\s|$)",d["statement"])); assert n<=3,(d["id"],n)
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
    open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
