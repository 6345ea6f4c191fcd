From cf87bfbef0111fff39c618bcd054e80b23b978c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 01/73] fix: report facts that have no id or share an id with a
 fact of another document

---
 brel/data/fact/in_memory_fact_repository.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..684ecf1 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -16,7 +16,7 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
-        self.__facts_without_id: list[Fact] = []
+        self.__facts: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
         return self.__facts_by_id[id]
@@ -31,15 +31,16 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts)
 
     def upsert(self, fact: Fact) -> None:
         """
-        Set the fact by its ID.
-        :param fact: The fact to set.
+        Add the fact. Facts that have an ID can also be looked up by it.
+        Neither is an ID mandatory, nor is it unique across multiple instance documents.
+        :param fact: The fact to add.
         """
+        self.__facts.append(fact)
+
         fact_id = fact.get_id()
-        if fact_id is None:
-            self.__facts_without_id.append(fact)
-        else:
+        if fact_id is not None:
             self.__facts_by_id[fact_id] = fact
-- 
2.43.0


From e8378e16f827c2759c51fac3ddc1d529ea8c15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 02/73] fix: keep decimals and precision of facts of XML
 instances

---
 brel/parsers/XML/xml_facts_parser.py | 37 ++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..721ee47 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -11,12 +11,13 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
-from typing import cast
+from typing import Optional, cast
 import lxml
 import lxml.etree
 
 from brel import Context, Fact
 from brel.characteristics import *
+from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
 from brel.parsers.XML.characteristics import parse_unit_from_xml
@@ -32,6 +33,31 @@ from brel.parsers.utils.lxml_utils import (
 )
 
 
+def parse_decimals_or_precision_xml(
+    fact_xml_element: lxml.etree._Element,  # type: ignore
+    attribute: str,
+    error_code: ErrorCode,
+    error_repository: ErrorRepository,
+) -> Optional[float]:
+    """
+    Parse the decimals or the precision attribute of a fact.
+    :param fact_xml_element: The lxml.etree._Element of the fact.
+    :param attribute: The name of the attribute, which is either "decimals" or "precision".
+    :param error_code: The error to record if the value of the attribute is neither an integer nor INF.
+    :param error_repository: The repository for recording errors.
+    :returns: The value of the attribute. None if the attribute is missing or invalid.
+    """
+    value = fact_xml_element.get(attribute)
+    if value is None:
+        return None
+
+    try:
+        return float("inf") if value.strip() == "INF" else float(int(value))
+    except ValueError:
+        error_repository.insert(error_code, fact_xml_element, **{attribute: value})
+        return None
+
+
 def parse_fact_from_xml(
     filingContext: FilingContext,
     fact_xml_element: lxml.etree._Element,  # type: ignore
@@ -61,6 +87,13 @@ def parse_fact_from_xml(
 
         fact_value = ""
 
+    decimals = parse_decimals_or_precision_xml(
+        fact_xml_element, "decimals", ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE, error_repository
+    )
+    precision = parse_decimals_or_precision_xml(
+        fact_xml_element, "precision", ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE, error_repository
+    )
+
     fact_unit_ref = fact_xml_element.get("unitRef")
     context_unit = context.get_unit()
     if context_unit and fact_unit_ref and fact_unit_ref != context_unit.get_value():
@@ -80,7 +113,7 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From cde0e8b0558dc7d15aaa73fcc5c1cfb4a608db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 03/73] fix: read text that is interrupted by comments or
 surrounded by whitespace

---
 .../XML/characteristics/xml_parse_entity.py   |  3 +-
 .../xml_parse_explicit_dimension.py           |  4 +--
 .../XML/characteristics/xml_parse_period.py   |  3 +-
 .../xml_parse_typed_dimension.py              | 13 +++++---
 .../XML/characteristics/xml_parse_unit.py     | 14 +++++----
 brel/parsers/XML/xml_context_parser.py        |  4 +--
 brel/parsers/XML/xml_facts_parser.py          |  3 +-
 brel/parsers/utils/lxml_utils.py              | 30 +++++++++++++++++++
 8 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..fa72fc2 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -19,6 +19,7 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.characteristic.characteristic_repository import CharacteristicRepository
 from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.error_utils import error_on_none
+from brel.parsers.utils.lxml_utils import get_collapsed_text
 
 
 def parse_entity_from_xml(
@@ -48,7 +49,7 @@ def parse_entity_from_xml(
 
     # The identifier element is guaranteed according to the XBRL 2.1 specification to have a text element
 
-    entity_id = identifier_element.text
+    entity_id = get_collapsed_text(identifier_element)
 
     if entity_id is None:
         f"Could not find text in identifier element {identifier_element}",
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..b460cde 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -19,7 +19,7 @@ from brel.characteristics import (
 )
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_collapsed_text, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension, Member
 from brel.contexts.filing_context import FilingContext
@@ -62,7 +62,7 @@ def parse_explicit_dimension_from_xml(
         return None
 
     dimension = report_element_repository.get_typed_by_qname(dimension_qname, Dimension)
-    member_id = xml_element.text
+    member_id = get_collapsed_text(xml_element)
     if not member_id:
         error_repository.insert(
             ErrorCode.MISSING_EXPLICIT_DIMENSION_MEMBER,
diff --git a/brel/parsers/XML/characteristics/xml_parse_period.py b/brel/parsers/XML/characteristics/xml_parse_period.py
index 127a04c..5cf4418 100644
--- a/brel/parsers/XML/characteristics/xml_parse_period.py
+++ b/brel/parsers/XML/characteristics/xml_parse_period.py
@@ -17,13 +17,14 @@ import lxml.etree
 from brel.characteristics import PeriodCharacteristic
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
+from brel.parsers.utils.lxml_utils import get_collapsed_text
 
 
 def get_context_date_from_xml(
     filing_context: FilingContext,
     xml_element: lxml.etree._Element,
 ) -> Optional[str]:
-    date = xml_element.text
+    date = get_collapsed_text(xml_element)
 
     if not PeriodCharacteristic._is_date(date):
         filing_context.get_error_repository().insert(
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..a8f1514 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -22,7 +22,11 @@ from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.iterable_utils import get_first
 from brel.parsers.utils.error_utils import error_on_none
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import (
+    get_child_elements,
+    get_str_attribute,
+    get_text,
+)
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension
 
@@ -76,14 +80,15 @@ def parse_typed_dimension_from_xml(
         dimension_qname, Dimension
     )
 
-    if len(xml_element) > 1:
+    children = get_child_elements(xml_element)
+    if len(children) > 1:
         error_repository.insert(
             ErrorCode.MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN,
             xml_element,
             dimension=dimension_axis,
         )
 
-    if len(xml_element) == 0:
+    if len(children) == 0:
         error_repository.insert(
             ErrorCode.NO_TYPED_DIMENSION_ELEMENT_CHILDREN,
             xml_element,
@@ -92,7 +97,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_value = xml_element[0].text
+    dimension_value = get_text(children[0])
     if dimension_value is None:
         error_repository.insert(
             ErrorCode.MISSING_TYPED_DIMENSION_VALUE,
diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..9001515 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -18,7 +18,11 @@ from brel.characteristics import UnitCharacteristic
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_str_attribute, get_str_attribute_optional
+from brel.parsers.utils.lxml_utils import (
+    get_child_elements,
+    get_collapsed_text,
+    get_str_attribute,
+)
 from brel.qnames.qname_utils import qname_from_str
 from brel.contexts.filing_context import FilingContext
 from brel.data.characteristic.characteristic_repository import CharacteristicRepository
@@ -28,7 +32,7 @@ def parse_unit_measure_from_xml(
     xml_element: _Element,  # type: ignore
     filing_context: FilingContext,
 ) -> Optional[QName]:
-    child_text = xml_element.text
+    child_text = get_collapsed_text(xml_element)
     error_repository = filing_context.get_error_repository()
     if child_text is None:
         error_repository.insert(ErrorCode.XML_MISSING_UNIT_MEASURE, xml_element)
@@ -64,7 +68,7 @@ def parse_unit_from_xml(
     denominators: list[QName] = []
 
     # get the child elements of the unit and check if its tag is 'measure' or 'divide'
-    children = list(xml_element)
+    children = get_child_elements(xml_element)
     if len(children) != 1:
         error_repository.insert(
             ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD,
@@ -84,7 +88,7 @@ def parse_unit_from_xml(
             numerators.append(child_qname)
 
         elif "divide" in child_tag:
-            num_and_denom = list(child)
+            num_and_denom = get_child_elements(child)
             if len(num_and_denom) != 2:
                 error_repository.insert(
                     ErrorCode.XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN,
@@ -107,7 +111,7 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
-                measure_child = num_or_denom[0]
+                measure_child = get_child_elements(num_or_denom)[0]
                 child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
 
                 if not child_qname:
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..a4f9002 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -20,7 +20,7 @@ from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.XML.characteristics import *
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_child_elements, get_str_attribute
 from brel.reportelements import *
 from brel.contexts.filing_context import FilingContext
 
@@ -71,7 +71,7 @@ def parse_context_xml(
     segment = context_entity.find("{*}segment", namespaces=None)
 
     if segment is not None:
-        for xml_dimension in segment:
+        for xml_dimension in get_child_elements(segment):
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 721ee47..5a800e8 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -30,6 +30,7 @@ from brel.parsers.utils.lxml_utils import (
     find_elements,
     get_str_attribute,
     get_clark_notation_tag,
+    get_text,
 )
 
 
@@ -75,7 +76,7 @@ def parse_fact_from_xml(
     fact_id = fact_xml_element.get("id")
 
     fact_concept_name = fact_xml_element.tag
-    fact_value = fact_xml_element.text
+    fact_value = get_text(fact_xml_element)
 
     if fact_value is None:
         if not context.get_concept().get_value().is_nillable():
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..ab6b225 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -78,6 +78,36 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     return element.attrib.get(attribute)
 
 
+def get_text(element: _Element) -> str | None:
+    """
+    Helper function for getting the text of an element. The text is not interrupted by comments and processing instructions.
+    :param element: lxml.etree.Element to get the text from
+    :returns: str containing the text of the element. None if the element does not have any text.
+    """
+    text_nodes = element.xpath("text()")
+    return "".join(text_nodes) if text_nodes else None
+
+
+def get_collapsed_text(element: _Element) -> str | None:
+    """
+    Helper function for getting the text of an element, where XML schema prescribes that whitespace is collapsed.
+    This is the case for all types except for strings. For example for dates and QNames.
+    :param element: lxml.etree.Element to get the text from
+    :returns: str containing the text of the element. None if the element does not have any text.
+    """
+    text = get_text(element)
+    return None if text is None else " ".join(text.split())
+
+
+def get_child_elements(element: _Element) -> list[_Element]:
+    """
+    Helper function for getting the child elements of an element, without comments and processing instructions.
+    :param element: lxml.etree.Element to get the children from
+    :returns: list containing the child elements
+    """
+    return [child for child in element if isinstance(child.tag, str)]
+
+
 def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
     """
     Helper function for getting the tag of an element as a string in Clark Notation.
-- 
2.43.0


From f5c18c76495c68e51d6460c48a232498a4a46054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:54 +0000
Subject: [PATCH 04/73] fix: read dimensions that are reported in the scenario
 of a context

---
 brel/parsers/XML/xml_context_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index a4f9002..2db7b63 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -67,11 +67,17 @@ def parse_context_xml(
     if entity is not None:
         fact_context._add_characteristic(entity)
 
-    # add the dimensions. the dimensions are the children of context/entity/segment
-    segment = context_entity.find("{*}segment", namespaces=None)
+    # add the dimensions. the dimensions are the children of context/entity/segment and of context/scenario
+    dimension_containers = [
+        context_entity.find("{*}segment", namespaces=None),
+        xml_element.find("{*}scenario", namespaces=None),
+    ]
 
-    if segment is not None:
-        for xml_dimension in get_child_elements(segment):
+    for container in dimension_containers:
+        if container is None:
+            continue
+
+        for xml_dimension in get_child_elements(container):
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From 68938af78c92c3dd70349aa8ebe247e43fd90e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 05/73] fix: compare qualified names by namespace and local
 name, not by prefix

---
 brel/qnames/qname.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..9a847f2 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # the prefix is only an abbreviation of the uri, so it does not take part in comparisons
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
-- 
2.43.0


From 822456314fb5cbb85a1d3316e92d6270ecc7ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:31 +0000
Subject: [PATCH 06/73] fix: distinguish entities with the same identifier in
 different schemes

---
 .../parsers/XML/characteristics/xml_parse_entity.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index fa72fc2..ecee172 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -55,9 +55,10 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
-    else:
-        entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
-        return entity_characteristic
+    # the same identifier stands for different entities in different schemes
+    entity_characteristic = EntityCharacteristic(entity_id, entity_url)
+    return characteristic_repository.get_or_create(
+        entity_characteristic.get_value(),
+        EntityCharacteristic,
+        lambda: entity_characteristic,
+    )
-- 
2.43.0


From 80f3c2249cabc57007b1e26aa33efd77a42ba629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:19 +0000
Subject: [PATCH 07/73] fix: identify dimensions by their namespace, not by the
 prefix in scope of a context

---
 brel/characteristics/brel_aspect.py                   |  9 ++++++++-
 brel/data/aspect/aspect_repository.py                 |  8 ++++++--
 brel/data/aspect/in_memory_aspect_repository.py       | 10 ++++++++++
 .../characteristics/xml_parse_explicit_dimension.py   | 11 +++++------
 .../XML/characteristics/xml_parse_typed_dimension.py  | 10 +++++-----
 .../XML/table_linkbase/xml_table_linkbase_parser.py   |  6 +-----
 6 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/brel/characteristics/brel_aspect.py b/brel/characteristics/brel_aspect.py
index 64b3979..96c1ad0 100644
--- a/brel/characteristics/brel_aspect.py
+++ b/brel/characteristics/brel_aspect.py
@@ -17,6 +17,7 @@ Custom aspects are all other aspects that are not core aspects.
 """
 
 from typing import List, Optional
+from brel.qnames.qname import QName
 from brel.resource import BrelLabel
 
 
@@ -45,9 +46,13 @@ class Aspect:
     ENTITY: "Aspect"
     UNIT: "Aspect"
 
-    def __init__(self, name: str, labels: list[BrelLabel]) -> None:
+    def __init__(
+        self, name: str, labels: list[BrelLabel], qname: Optional[QName] = None
+    ) -> None:
         self.__name = name
         self.__labels = labels
+        # the dimension behind a custom aspect, since its name only has a prefix
+        self.__qname = qname
         self.__is_core = False
 
     # first class citizens
@@ -130,6 +135,8 @@ class Aspect:
 
     def __eq__(self, __value: object) -> bool:
         if isinstance(__value, Aspect):
+            if self.__qname is not None and __value.__qname is not None:
+                return self.__qname == __value.__qname
             return self.__name == __value.get_name()
         return False
 
diff --git a/brel/data/aspect/aspect_repository.py b/brel/data/aspect/aspect_repository.py
index 97fcdb7..7eaa2aa 100644
--- a/brel/data/aspect/aspect_repository.py
+++ b/brel/data/aspect/aspect_repository.py
@@ -19,8 +19,12 @@ class AspectRepository(ABC):
     def get(self, name: str) -> Aspect:
         raise NotImplementedError()
 
-    def get_by_qname(self, qname: QName) -> Aspect:
-        return self.get(qname.prefix_local_name_notation())
+    @abstractmethod
+    def get_or_create_by_qname(self, qname: QName) -> Aspect:
+        """
+        :returns: The aspect of the dimension with the given qname, which is created on first use.
+        """
+        raise NotImplementedError()
 
     @abstractmethod
     def has(self, name: str) -> bool:
diff --git a/brel/data/aspect/in_memory_aspect_repository.py b/brel/data/aspect/in_memory_aspect_repository.py
index 10029d5..d231d87 100644
--- a/brel/data/aspect/in_memory_aspect_repository.py
+++ b/brel/data/aspect/in_memory_aspect_repository.py
@@ -10,15 +10,25 @@
 
 from brel.characteristics.brel_aspect import Aspect
 from brel.data.aspect.aspect_repository import AspectRepository
+from brel.qnames.qname import QName
 
 
 class InMemoryAspectRepository(AspectRepository):
     def __init__(self) -> None:
         self.__aspects: dict[str, Aspect] = {}
+        self.__aspects_by_qname: dict[QName, Aspect] = {}
 
     def get(self, name: str) -> Aspect:
         return self.__aspects[name]
 
+    def get_or_create_by_qname(self, qname: QName) -> Aspect:
+        if qname not in self.__aspects_by_qname:
+            aspect = Aspect(qname.prefix_local_name_notation(), [], qname)
+            self.__aspects_by_qname[qname] = aspect
+            self.upsert(aspect)
+
+        return self.__aspects_by_qname[qname]
+
     def has(self, name: str) -> bool:
         return name in self.__aspects
 
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b460cde..0ec84b5 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -14,7 +14,6 @@ from typing import Optional
 import lxml.etree
 
 from brel.characteristics import (
-    Aspect,
     ExplicitDimensionCharacteristic,
 )
 from brel.errors.error_code import ErrorCode
@@ -48,10 +47,6 @@ def parse_explicit_dimension_from_xml(
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension")
-    if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
-        aspect_repository.upsert(Aspect(aspect_id, []))
-
-    aspect = aspect_repository.get(aspect_id)
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -61,6 +56,7 @@ def parse_explicit_dimension_from_xml(
         )
         return None
 
+    aspect = aspect_repository.get_or_create_by_qname(dimension_qname)
     dimension = report_element_repository.get_typed_by_qname(dimension_qname, Dimension)
     member_id = get_collapsed_text(xml_element)
     if not member_id:
@@ -83,7 +79,10 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    # prefixes may be bound to different namespaces elsewhere
+    dimension_id = (
+        f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
+    )
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index a8f1514..02d684d 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -64,10 +64,6 @@ def parse_typed_dimension_from_xml(
 
     dimension_axis = get_str_attribute(xml_element, "dimension")
 
-    if not aspect_repository.has(dimension_axis):
-        aspect_repository.upsert(Aspect(dimension_axis, []))
-    dimension_aspect = aspect_repository.get(dimension_axis)
-
     dimension_qname = qname_from_str(dimension_axis, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -76,6 +72,9 @@ def parse_typed_dimension_from_xml(
             dimension=dimension_axis,
         )
 
+        return None
+
+    dimension_aspect = aspect_repository.get_or_create_by_qname(dimension_qname)
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
     )
@@ -107,7 +106,8 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    # prefixes may be bound to different namespaces elsewhere
+    dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
diff --git a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
index 9ecc68f..c7880c2 100644
--- a/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
+++ b/brel/parsers/XML/table_linkbase/xml_table_linkbase_parser.py
@@ -397,11 +397,7 @@ def parse_aspect_node_element(
             dimension_qname = qname_from_str(child.text or "", child)
 
             aspect_repository = context.get_aspect_repository()
-            if not aspect_repository.has(dimension_qname.prefix_local_name_notation()):
-                # TODO: error
-                return None
-
-            aspect = aspect_repository.get(dimension_qname.prefix_local_name_notation())
+            aspect = aspect_repository.get_or_create_by_qname(dimension_qname)
 
     if not aspect:
         # TODO: error
-- 
2.43.0


From 0d18cb131cb78f1a8f76348311b05c808b70708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:12 +0000
Subject: [PATCH 08/73] fix: compare units by measures and contexts by aspects,
 read units per document

---
 brel/brel_context.py                        |  7 +++++--
 brel/characteristics/unit_characteristic.py |  7 ++++++-
 brel/parsers/XML/xml_facts_parser.py        | 17 +++++++----------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/brel/brel_context.py b/brel/brel_context.py
index 5a3cc82..a5d7796 100644
--- a/brel/brel_context.py
+++ b/brel/brel_context.py
@@ -192,8 +192,11 @@ class Context:
         if not isinstance(__value, Context):
             return False
 
-        # TODO: dont use the _id, compare the aspects instead
-        return self._get_id() == __value._get_id()
+        # the id is only an identifier within one document
+        return set(self.__aspects) == set(__value.__aspects) and all(
+            self.get_characteristic(aspect) == __value.get_characteristic(aspect)
+            for aspect in self.__aspects
+        )
 
     def convert_to_df_row(
         self,
diff --git a/brel/characteristics/unit_characteristic.py b/brel/characteristics/unit_characteristic.py
index a37e087..07c3a67 100644
--- a/brel/characteristics/unit_characteristic.py
+++ b/brel/characteristics/unit_characteristic.py
@@ -89,7 +89,12 @@ class UnitCharacteristic(ICharacteristic):
         if not isinstance(__value, UnitCharacteristic):
             return False
 
-        return self.__name == __value.__name
+        # the name is only an identifier within one document
+        return sorted(self.__numerators, key=QName.clark_notation) == sorted(
+            __value.__numerators, key=QName.clark_notation
+        ) and sorted(self.__denominators, key=QName.clark_notation) == sorted(
+            __value.__denominators, key=QName.clark_notation
+        )
 
     def is_simple(self) -> bool:
         """
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 5a800e8..ec4c789 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -11,7 +11,7 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
-from typing import Optional, cast
+from typing import Optional
 import lxml
 import lxml.etree
 
@@ -131,6 +131,9 @@ def parse_facts_xml(
     xml_service = context.get_xml_service()
 
     for xbrl_instance in xml_service.get_all_etrees():
+        # the ids of units are only unique within one document
+        units: dict[str, UnitCharacteristic] = {}
+
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -174,20 +177,14 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                if unit_id not in units:
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
-
-                unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
-                )
+                    units[unit_id] = new_unit
 
-                fact_characteristics.append(
-                    cast(UnitCharacteristic, unit_characteristic)
-                )
+                fact_characteristics.append(units[unit_id])
 
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
-- 
2.43.0


From fdf7e16d9c824a554456cd66bbf1cbe28bbc55ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:12 +0000
Subject: [PATCH 09/73] fix: facts of inline reports refer to the dimensions
 and members of the report

---
 brel/data/context/in_memory_context_repository.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/brel/data/context/in_memory_context_repository.py b/brel/data/context/in_memory_context_repository.py
index 00a0343..33e5a1e 100644
--- a/brel/data/context/in_memory_context_repository.py
+++ b/brel/data/context/in_memory_context_repository.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Dict, Optional
 from brel.brel_context import Context
 from brel.data.context.context_repository import ContextRepository
@@ -18,7 +17,13 @@ class InMemoryContextRepository(ContextRepository):
         if context_id not in self.__contexts:
             return None
 
-        return deepcopy(self.__contexts[context_id])
+        # the copy shares its characteristics, and so their report elements, with the report
+        context = self.__contexts[context_id]
+        copy = Context(context_id)
+        for aspect in context.get_aspects():
+            copy._add_characteristic(context.get_characteristic(aspect))
+
+        return copy
 
     def insert_context(self, context: Context) -> bool:
         """
-- 
2.43.0


From 6c108a97fd3c226036e3acd53a5f2e3523a63f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:34 +0000
Subject: [PATCH 10/73] fix: recognise the month names that the date formats
 admit

German, Slovenian, Dutch, Lithuanian, Welsh, Greek and roman month names were
matched by the wrong group, assigned to the wrong month or not found at all.
---
 .../xhtml_parse_transformation_registry.py    | 69 +++++++++++--------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..661bbb4 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -19,7 +19,7 @@ number_format_to_regex = {
 
 date_format_to_regex = {
     "ixt:date-day-monthname-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]{0,7}$",
-    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fedi|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fed|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-year-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-month": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
     "ixt:date-month-day": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
@@ -37,9 +37,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?[XVI]I{0,3}|i?[xvi]i{0,3})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?[XVI]I{0,3}|i?[xvi]i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I?[XVI]I{0,3}|i?[xvi]i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
@@ -250,7 +250,7 @@ country_to_month_names = {
         ["φεβ"],
         ["μάρ", "μαρ"],
         ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ"],
-        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ"],
+        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαϊ\u0301"],
         ["ιούν", "ίούν", "ίουν", "ιουν"],
         ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ"],
         ["αύγ", "αυγ"],
@@ -374,8 +374,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
@@ -408,7 +407,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
@@ -684,6 +684,25 @@ def convert_national_indian_date_to_gregorian(
     return date_parts
 
 
+def find_month(month_name: str, country: Optional[str]) -> Optional[int]:
+    """
+    Find the number of a month given its name.
+    :param month_name: The name of the month as matched by the format.
+    :param country: The country code of the format, "roman" or None for months that are given as numbers.
+    :return: The number of the month starting from 1. None if there is no such month.
+    """
+    month_name = month_name.lower()
+    if country == "el":
+        # Greek formats admit latin letters that look like the greek ones
+        month_name = month_name.translate(str.maketrans("iao", "ιαο"))
+
+    for i, month_i_names in enumerate(country_to_month_names[country]):
+        if month_name in month_i_names:
+            return i + 1
+
+    return None
+
+
 def normalize_date_parts(
     date_parts: dict[str, str], fact_format: str
 ) -> dict[str, str]:
@@ -705,13 +724,9 @@ def normalize_date_parts(
         if not country and "monthroman" in fact_format:
             country = "roman"
 
-        month_names = country_to_month_names[country]
-
-        date_parts["month"] = date_parts["month"].lower()
-        for i, month_i_names in enumerate(month_names):
-            if date_parts["month"] in month_i_names:
-                normalized_date_parts["month"] = "{:02n}".format(i + 1)
-                break
+        month = find_month(date_parts["month"], country)
+        if month is not None:
+            normalized_date_parts["month"] = "{:02n}".format(month)
     if "year" in date_parts:
         # special handling of indian national calendar
         if fact_format == "ixt:date-ind-day-monthname-year-hi":
-- 
2.43.0


From 38800b795423534ec5de19a39319ab36b84204bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:02 +0000
Subject: [PATCH 11/73] fix: convert dates of the indian national calendar

---
 .../xhtml_parse_transformation_registry.py    | 90 ++++++++++++-------
 1 file changed, 58 insertions(+), 32 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 661bbb4..64bfaeb 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1,4 +1,5 @@
 from optparse import Option
+from calendar import isleap
 from typing import Optional
 from convertdate import indian_civil
 import datetime
@@ -110,6 +111,22 @@ date_format_to_regex = {
     "ixt:date-ind-day-monthname-year-hi": r"^([0-9]{1,2}|[०-९]{1,2})[^0-9०-९]+(C\S*ait|चैत्र|Vai|वैशाख|बैसाख|Jy|ज्येष्ठ|dha|ḍha|आषाढ|आषाढ़|vana|Śrāvaṇa|श्रावण|सावन|Bh\S+dra|Proṣṭhapada|भाद्रपद|भादो|in|आश्विन|K\S+rti|कार्तिक|M\S+rga|Agra|मार्गशीर्ष|अगहन|Pau|पौष|M\S+gh|माघ|Ph\S+lg|फाल्गुन)[^0-9०-९]+([0-9]{2}|[0-9]{4}|[०-९]{2}|[०-९]{4})$",
 }
 
+# The months of the indian national calendar in the same order as the calendar, as they are matched by the format
+indian_national_month_regexes = [
+    r"C\S*ait|चैत्र",
+    r"Vai|वैशाख|बैसाख",
+    r"Jy|ज्येष्ठ",
+    r"dha|ḍha|आषाढ|आषाढ़",
+    r"vana|Śrāvaṇa|श्रावण|सावन",
+    r"Bh\S+dra|Proṣṭhapada|भाद्रपद|भादो",
+    r"in|आश्विन",
+    r"K\S+rti|कार्तिक",
+    r"M\S+rga|Agra|मार्गशीर्ष|अगहन",
+    r"Pau|पौष",
+    r"M\S+gh|माघ",
+    r"Ph\S+lg|फाल्गुन",
+]
+
 # Default order is assumed to be ['day', 'month', 'year'] for full dates, ['day', 'month'] for recurring dates and ['month', 'year'] for Month-Year dates
 irregular_date_order_dict = {
     "ixt:date-month-day": ["month", "day"],
@@ -330,18 +347,18 @@ country_to_month_names = {
         ["déc", "dec"],
     ],
     "hi": [
-        ["जनवरी", "cait", "chait", "चैत्र"],
-        ["फरवरी", "vai", "वैशाख", "बैसाख"],
-        ["मार्च", "jy", "ज्येष्ठ"],
-        ["अप्रैल", "dha", "ḍha", "आषाढ", "आषाढ़"],
-        ["मई", "vana", "śrāvaṇa", "श्रावण", "सावन"],
-        ["जून", "bhadra", "proṣṭhapada", "भाद्रपद", "भादो"],
-        ["जुलाई", "in", "आश्विन"],
-        ["अगस्त", "karti", "kartik", "कार्तिक"],
-        ["सितंबर", "mrga", "marga", "agra", "मार्गशीर्ष", "अगहन"],
-        ["अक्टूबर", "pau", "पौष"],
-        ["नवंबर", "mgh", "magha", "माघ"],
-        ["दिसंबर", "phlg", "phalg", "फाल्गुन"],
+        ["जनवरी"],
+        ["फरवरी"],
+        ["मार्च"],
+        ["अप्रैल"],
+        ["मई"],
+        ["जून"],
+        ["जुलाई"],
+        ["अगस्त"],
+        ["सितंबर"],
+        ["अक्टूबर"],
+        ["नवंबर"],
+        ["दिसंबर"],
     ],
     "hr": [
         ["sij"],
@@ -664,24 +681,34 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
-        date_parts["year"] = "19" + date_parts["year"]
-
-    gregorian_date = indian_civil.to_gregorian(
-        int(date_parts["year"]), int(date_parts["month"]), int(date_parts["day"])
+    day = int(date_parts["day"])
+    month = next(
+        i + 1
+        for i, regex in enumerate(indian_national_month_regexes)
+        if re.fullmatch(regex, date_parts["month"])
     )
-
-    gregorian_year, gregorian_month, gregorian_day = gregorian_date
+    year = int(date_parts["year"])
 
     # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
-        gregorian_year += 100
-
-    date_parts["year"] = str(gregorian_year)
-    date_parts["month"] = "{:02n}".format(gregorian_month)
-    date_parts["day"] = "{:02n}".format(gregorian_day)
+    if len(date_parts["year"]) == 2:
+        year += 1900
+        if indian_civil.to_gregorian(year, month, day)[0] < 2000:
+            year += 100
+
+    # The first month is one day longer in leap years
+    is_long_month = 2 <= month <= 6 or month == 1 and isleap(year + 78)
+    if not 1 <= day <= (31 if is_long_month else 30):
+        return {}
+
+    gregorian_year, gregorian_month, gregorian_day = indian_civil.to_gregorian(
+        year, month, day
+    )
 
-    return date_parts
+    return {
+        "year": "{:04n}".format(gregorian_year),
+        "month": "{:02n}".format(gregorian_month),
+        "day": "{:02n}".format(gregorian_day),
+    }
 
 
 def find_month(month_name: str, country: Optional[str]) -> Optional[int]:
@@ -708,6 +735,10 @@ def normalize_date_parts(
 ) -> dict[str, str]:
     date_parts = {k: normalize_digits_in_string(v) for k, v in date_parts.items()}
 
+    # special handling of indian national calendar
+    if fact_format == "ixt:date-ind-day-monthname-year-hi":
+        return convert_national_indian_date_to_gregorian(date_parts)
+
     # special handling of japanese imperial calendar
     if "jpn" in fact_format:
         date_parts = convert_japanese_imperial_date_to_gregorian(
@@ -728,12 +759,7 @@ def normalize_date_parts(
         if month is not None:
             normalized_date_parts["month"] = "{:02n}".format(month)
     if "year" in date_parts:
-        # special handling of indian national calendar
-        if fact_format == "ixt:date-ind-day-monthname-year-hi":
-            normalized_date_parts = convert_national_indian_date_to_gregorian(
-                normalized_date_parts
-            )
-        elif len(date_parts["year"]) == 2:
+        if len(date_parts["year"]) == 2:
             normalized_date_parts["year"] = "20" + date_parts["year"]
         elif len(date_parts["year"]) == 1:
             normalized_date_parts["year"] = "200" + date_parts["year"]
-- 
2.43.0


From ee86c3b73cfcc0a56d187817217f76e307a21914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:17 +0000
Subject: [PATCH 12/73] fix: report dates that do not exist instead of failing
 or accepting them

---
 .../xhtml_parse_transformation_registry.py    | 62 ++++++++++---------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 64bfaeb..ee1713f 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -747,6 +747,8 @@ def normalize_date_parts(
 
     normalized_date_parts = {}
 
+    if "era" in date_parts:
+        normalized_date_parts["era"] = date_parts["era"]
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
     if "month" in date_parts:
@@ -770,35 +772,16 @@ def normalize_date_parts(
 
 
 def check_japanese_imperial_date_valid(date_parts: dict[str, str]) -> bool:
-    era_start_date = japanese_era_to_gregorian_period[date_parts["era"]][0]
-    era_end_date = japanese_era_to_gregorian_period[date_parts["era"]][1]
-
-    if "day" in date_parts:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{date_parts["day"]}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date < era_start_date or given_date > era_end_date:
-            return False
-    else:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_start_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date < era_start_date:
-            return False
-
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_end_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
+    era_start_date, era_end_date = japanese_era_to_gregorian_period[date_parts["era"]]
+    start = (era_start_date.year, era_start_date.month, era_start_date.day)
+    end = (era_end_date.year, era_end_date.month, era_end_date.day)
 
-        if given_date > era_end_date:
-            return False
+    # A month belongs to the era if any of its days does
+    given = tuple(
+        int(date_parts[part]) for part in ("year", "month", "day") if part in date_parts
+    )
 
-    return True
+    return start[: len(given)] <= given <= end[: len(given)]
 
 
 def validate_date_fact_value(
@@ -808,7 +791,12 @@ def validate_date_fact_value(
     error_repository: ErrorRepository,
     is_recurring=False,
     is_full_date=False,
-) -> None:
+) -> bool:
+    """
+    Check that the parts of a date denote a date and report an error if they do not.
+    :return: True if the date is valid, False otherwise.
+    """
+    is_valid = True
     if is_recurring:
         if "year" in date_parts:
             error_repository.insert(
@@ -820,19 +808,26 @@ def validate_date_fact_value(
                 element,
                 date=fact_value,
             )
+            is_valid = False
     elif "year" not in date_parts or "month" not in date_parts:
         error_repository.insert(
             ErrorCode.YEAR_OR_MONTH_NOT_PRESENT_IN_NON_RECURRING_DATE,
             element,
             date=fact_value,
         )
+        is_valid = False
 
     if is_full_date and "day" not in date_parts:
         error_repository.insert(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
+        is_valid = False
+
+    if not is_valid:
+        return False
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
+    # 2020 is a leap year, so it has all days that recur
+    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date or is_recurring else '01'}"
 
     try:
         datetime.date.fromisoformat(iso8601_formatted_string)
@@ -840,12 +835,16 @@ def validate_date_fact_value(
         error_repository.insert(
             ErrorCode.INVALID_GREGORIAN_DATE, element, date=fact_value
         )
+        return False
 
     if "era" in date_parts:
         if not check_japanese_imperial_date_valid(date_parts):
             error_repository.insert(
                 ErrorCode.INVALID_JAPANESE_IMPERIAL_DATE, element, date=fact_value
             )
+            return False
+
+    return True
 
 
 def parse_date_fact_value(
@@ -871,7 +870,7 @@ def parse_date_fact_value(
     )
     date_parts = normalize_date_parts(date_parts, fact_format)
 
-    validate_date_fact_value(
+    is_valid = validate_date_fact_value(
         date_parts,
         is_recurring=is_recurring,
         is_full_date=is_full_date,
@@ -880,6 +879,9 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    if not is_valid:
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
-- 
2.43.0


From 7fdd85b154c9a7d8f6e3b8218efebbfa79e1f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:17 +0000
Subject: [PATCH 13/73] fix: apply the formats that legacy format names stand
 for

---
 .../xhtml_parse_transformation_registry.py    | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index ee1713f..f5930a5 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -562,7 +562,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -608,7 +608,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
@@ -1062,11 +1062,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
@@ -1106,19 +1106,13 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
-            )
+            fact_format = "ixt:date-day-monthname-year-hi"
+            if not re.search(date_format_to_regex[fact_format], fact_value.strip()):
+                fact_format = "ixt:date-day-month-year"
 
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
-            )
-
-            fact_value = fact_value_option_1 or fact_value_option_2
-        else:
-            fact_value = parse_date_fact_value(
-                fact_value, fact_format, element, error_repository
-            )
+        fact_value = parse_date_fact_value(
+            fact_value, fact_format, element, error_repository
+        )
     else:
         fact_value = parse_literal_fact_value(
             fact_value, fact_format, element, error_repository
-- 
2.43.0


From 0f70e94997b20d2bdae14f8576f9227d39e51337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:02 +0000
Subject: [PATCH 14/73] fix: read inline numbers exactly

Zero is not empty, one digit of subunits is a hundredth, no-break spaces separate
groups of digits and text that is not a number is never negated.
---
 .../XHMTL/elements/parse_non_fraction.py      |  4 +++
 .../xhtml_parse_transformation_registry.py    | 26 +++++++++++--------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..1bbec63 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -131,6 +131,10 @@ def process_non_fraction_value(
         fact_value, format, scale, fact_element, error_repository
     )
 
+    if parsed_value is None:
+        # The text is not a number, so there is nothing to negate
+        return fact_value
+
     if sign == "-":
         parsed_value = "-" + parsed_value
 
diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index f5930a5..9769dcf 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -10,11 +10,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 number_format_to_regex = {
-    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal-apos": r"^([,\'`´’′  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′ \xa00-9]*)(,[ \xa00-9]+)?$",
+    "ixt:num-dot-decimal-apos": r"^([,\'`´’′ \xa00-9]*)(\.[ \xa00-9]+)?$",
     "ixt:num-unit-decimal-apos": r"^([0-9０-９\.,，\'`´’′＇]+)[^0-9０-９\.,，\'`´’′＇][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
-    "ixt:num-comma-decimal": r"^([\.  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal": r"^([,  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal": r"^([\. \xa00-9]*)(,[ \xa00-9]+)?$",
+    "ixt:num-dot-decimal": r"^([, \xa00-9]*)(\.[ \xa00-9]+)?$",
     "ixt:num-unit-decimal": r"^([0-9０-９\.,，]+)[^0-9０-９\.,，][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
 }
 
@@ -959,7 +959,7 @@ def match_regex_numerical_fact_value(
         return None
 
     match = re.match(number_format_regex, fact_value)
-    if not match:
+    if not match or not re.search(r"\d", fact_value):
         error_repository.insert(
             ErrorCode.NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT,
             element,
@@ -990,7 +990,7 @@ def apply_scale(whole_part: str, decimal_part: str, scale: int) -> tuple[str, st
 
 
 def process_number_part(number_part: str) -> str:
-    separators = " .,，'`´’′＇"
+    separators = " \xa0.,，'`´’′＇"
 
     if not number_part:
         number_part = "0"
@@ -1002,6 +1002,7 @@ def process_number_part(number_part: str) -> str:
 
 def process_numerical_fact_value(
     match: re.Match,
+    fact_format: str,
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
@@ -1009,6 +1010,9 @@ def process_numerical_fact_value(
     # Parse whole and decimal parts
     whole_part = process_number_part(match.group(1))
     decimal_part = process_number_part(match.group(2))
+    if fact_format.startswith("ixt:num-unit-decimal"):
+        # The decimal part is the number of subunits, for example cents
+        decimal_part = decimal_part.rjust(2, "0")
 
     # Parse the scale
     scale = 0
@@ -1037,7 +1041,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if fact_value == "" or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
@@ -1049,7 +1053,7 @@ def parse_numerical_fact_value(
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
-) -> str:
+) -> Optional[str]:
     """
     Parses and converts a numerical fact value from a string based on the specified format and scale.
 
@@ -1060,7 +1064,7 @@ def parse_numerical_fact_value(
     :param fact_value: The numerical fact value as a string.
     :param fact_format: The format of the numerical fact, indicating how the value is formatted.
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
-    :return: The parsed and scaled numerical value as a string.
+    :return: The parsed and scaled numerical value as a string. None if the value is not a number of the format.
     """
     fact_format = legacy_to_current_formats.get(fact_format, fact_format)
 
@@ -1073,10 +1077,10 @@ def parse_numerical_fact_value(
     )
 
     if not match:
-        return fact_value
+        return None
 
     fact_value = process_numerical_fact_value(
-        match, fact_scale, element, error_repository
+        match, fact_format, fact_scale, element, error_repository
     )
     fact_value = normalize_numerical_fact_value(fact_value)
 
-- 
2.43.0


From 4c3403650ca03ea0cad0552ad890dcb30bfaec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:44 +0000
Subject: [PATCH 15/73] fix: do not depend on the prefixes that documents use
 for the namespaces of the specifications

---
 brel/parsers/utils/lxml_utils.py | 63 ++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index ab6b225..6a52d54 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -13,6 +13,7 @@ from typing import Dict, List, Mapping, Optional, cast
 from brel.qnames.qname import QName
 import lxml.etree
 from lxml.etree import _Element, _ElementTree, XPath  # type: ignore
+from lxml.etree import QName as QNameLxml
 
 from brel.qnames.qname_utils import (
     is_clark_notation,
@@ -21,6 +22,36 @@ from brel.qnames.qname_utils import (
 )
 
 
+# The prefixes that are used for the namespaces of the specifications throughout Brel.
+# Documents may use any other prefix for them, so names written with these prefixes do not depend on the document.
+SPECIFICATION_NAMESPACES = {
+    "ix": "http://www.xbrl.org/2013/inlineXBRL",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+}
+
+
+def get_attribute_name(element: _Element, attribute: str | QName) -> str:
+    """
+    Helper function for getting the name of an attribute as it is used by lxml.
+    :param element: lxml.etree.Element that has the attribute
+    :param attribute: QName or str containing the name of the attribute
+    :returns: str containing the local name, or the name in Clark Notation if the attribute has a namespace
+    """
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+    elif is_namespace_localname_notation(attribute):
+        prefix, local_name = attribute.split(":")
+        if prefix in SPECIFICATION_NAMESPACES:
+            return f"{{{SPECIFICATION_NAMESPACES[prefix]}}}{local_name}"
+
+        return qname_from_str(attribute, element).clark_notation()
+
+    return attribute
+
+
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
     Helper function for checking if an element has a string attribute.
@@ -28,12 +59,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
-
-    return attribute in element.attrib
+    return get_attribute_name(element, attribute) in element.attrib
 
 
 def get_str_attribute(
@@ -48,12 +74,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
-
-    value = element.get(attribute)
+    value = element.get(get_attribute_name(element, attribute))
     if value is None:
         if default is not None:
             return default
@@ -70,12 +91,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
-
-    return element.attrib.get(attribute)
+    return element.attrib.get(get_attribute_name(element, attribute))
 
 
 def get_text(element: _Element) -> str | None:
@@ -120,10 +136,15 @@ def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
 def get_prefix_localname_tag(element: _Element) -> str:
     """
     Helper function for getting the tag of an element as a string in prefix:localname notation.
-    Uses the namespaces available in the passed element.
+    Uses the usual prefixes for the namespaces of the specifications and the namespaces available in the passed element otherwise.
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
+    tag = QNameLxml(element)
+    for prefix, namespace in SPECIFICATION_NAMESPACES.items():
+        if tag.namespace == namespace:
+            return f"{prefix}:{tag.localname}"
+
     return qname_from_str(element.tag, element).prefix_local_name_notation()
 
 
@@ -140,6 +161,7 @@ def find_elements(
 
     if not namespaces:
         namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces.update(SPECIFICATION_NAMESPACES)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
@@ -159,7 +181,8 @@ def find_element(
     if isinstance(element, _ElementTree):
         element = element.getroot()
 
-    nsmap: Mapping[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
+    nsmap = {k: v for k, v in element.nsmap.items() if k is not None}
+    nsmap.update(SPECIFICATION_NAMESPACES)
     return element.find(xpath_query, namespaces=nsmap)
 
 
-- 
2.43.0


From 8268291676f99d07c7fc1d33ba3e4e20322b2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:04 +0000
Subject: [PATCH 16/73] fix: resolve the names of inline formats by their
 namespace

---
 .../XHMTL/elements/parse_non_fraction.py      |  3 ++
 .../xhtml_parse_transformation_registry.py    | 31 ++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 1bbec63..e607b9b 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -5,6 +5,7 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
+    normalize_format,
     parse_numerical_fact_value,
 )
 from brel.parsers.utils.lxml_utils import (
@@ -123,6 +124,8 @@ def process_non_fraction_value(
             return ""
 
         format = "ixt:num-dot-decimal"
+    else:
+        format = normalize_format(format, fact_element)
 
     if not scale:
         scale = "0"
diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 9769dcf..46f75ab 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -9,6 +9,11 @@ from lxml.etree import _Element
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
+# All versions of the transformation registry
+TRANSFORMATION_REGISTRY_REGEX = (
+    r"^http://www\.xbrl\.org/(2008/)?inlineXBRL/transformation(/|$)"
+)
+
 number_format_to_regex = {
     "ixt:num-comma-decimal-apos": r"^([\.\'`´’′ \xa00-9]*)(,[ \xa00-9]+)?$",
     "ixt:num-dot-decimal-apos": r"^([,\'`´’′ \xa00-9]*)(\.[ \xa00-9]+)?$",
@@ -618,6 +623,26 @@ legacy_to_current_formats = {
 }
 
 
+def normalize_format(fact_format: str, element: _Element) -> str:
+    """
+    Get the current name of a format of the transformation registry.
+    :param fact_format: The name of the format as it is written in the document. May be a legacy name.
+    :param element: The element that has the format. Its namespaces determine what the prefix of the format means.
+    :return: The current name of the format with the prefix ixt. Formats of other registries are returned as they are.
+    """
+    prefix, _, local_name = fact_format.strip().rpartition(":")
+    namespace = element.nsmap.get(prefix or None)
+
+    if namespace is not None:
+        is_registry = re.match(TRANSFORMATION_REGISTRY_REGEX, namespace)
+        if prefix == "ixt" and not is_registry:
+            return f"{{{namespace}}}{local_name}"
+        elif is_registry:
+            fact_format = f"ixt:{local_name}"
+
+    return legacy_to_current_formats.get(fact_format, fact_format)
+
+
 def match_regex_date_fact_value(
     fact_value: str,
     fact_format: str,
@@ -1062,12 +1087,10 @@ def parse_numerical_fact_value(
     function then scales the numerical value by a factor of 10 raised to the power of the given scale.
 
     :param fact_value: The numerical fact value as a string.
-    :param fact_format: The format of the numerical fact, indicating how the value is formatted.
+    :param fact_format: The format of the numerical fact, indicating how the value is formatted. Must be normalized.
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string. None if the value is not a number of the format.
     """
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     if fact_format == "ixt:fixed-zero":
         return "0"
 
@@ -1096,7 +1119,7 @@ def parse_non_numerical_fact_value(
     if not fact_format:
         return fact_value
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+    fact_format = normalize_format(fact_format, element)
 
     if fact_format.startswith("ixt:num") or fact_format == "ixt:fixed-zero":
         error_repository.insert(
-- 
2.43.0


From 95dec7a1f8daab9d7269cd5eefcc3ebee402bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:36 +0000
Subject: [PATCH 17/73] fix: accept comments and processing instructions in the
 elements of inline reports

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 5 +++++
 brel/parsers/XHMTL/elements/parse_header.py             | 3 ++-
 brel/parsers/XHMTL/elements/parse_hidden.py             | 4 ++--
 brel/parsers/XHMTL/elements/parse_references.py         | 6 ++++--
 brel/parsers/XHMTL/elements/parse_resources.py          | 4 ++--
 5 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..4cfb02a 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -142,6 +142,11 @@ def extract_relevant_content_per_element(element: _Element) -> _Element:
     relevant_element = clone_element_without_children(element)
 
     for child in element:
+        if not isinstance(child.tag, str):
+            # Comments and processing instructions are not part of the content
+            append_text_to_parent(relevant_element, child.tail)
+            continue
+
         child_tag = get_prefix_localname_tag(child)
 
         if child_tag == "ix:exclude":
diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..fd35e19 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -5,6 +5,7 @@ from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.lxml_utils import (
     find_element,
     find_elements,
+    get_child_elements,
     get_prefix_localname_tag,
 )
 from lxml.etree import _Element
@@ -26,7 +27,7 @@ def parse_header(
 ) -> Tuple[List[_Element], List[_Element], List[_Element]]:
     hidden_elements, resources_elements, references_elements = [], [], []
 
-    for child in header_element:
+    for child in get_child_elements(header_element):
         tag = get_prefix_localname_tag(child)
         if tag == "ix:hidden":
             hidden_elements.append(child)
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..de03875 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -3,7 +3,7 @@ from lxml.etree import _Element
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_prefix_localname_tag
+from brel.parsers.utils.lxml_utils import get_child_elements, get_prefix_localname_tag
 
 
 def validate_hidden_elements(
@@ -11,7 +11,7 @@ def validate_hidden_elements(
 ) -> None:
     error_repository = filing_context.get_error_repository()
     for element in hidden_elements:
-        for child in element:
+        for child in get_child_elements(element):
             child_tag = get_prefix_localname_tag(child)
 
             if child_tag in ["ix:footnote", "ix:nonFraction", "ix:nonNumeric"]:
diff --git a/brel/parsers/XHMTL/elements/parse_references.py b/brel/parsers/XHMTL/elements/parse_references.py
index 010f98f..80a1244 100644
--- a/brel/parsers/XHMTL/elements/parse_references.py
+++ b/brel/parsers/XHMTL/elements/parse_references.py
@@ -5,6 +5,7 @@ from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.utils.lxml_utils import (
+    get_child_elements,
     get_prefix_localname_tag,
     get_str_attribute_optional,
 )
@@ -25,12 +26,13 @@ def parse_references_elements(
 
             taken_ids.add(id)
 
-        if len(element) == 0:
+        children = get_child_elements(element)
+        if len(children) == 0:
             error_repository.insert(
                 ErrorCode.IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN, element
             )
 
-        for child in element:
+        for child in children:
             child_tag = get_prefix_localname_tag(child)
 
             if child_tag not in ["link:schemaRef", "link:linkbaseRef"]:
diff --git a/brel/parsers/XHMTL/elements/parse_resources.py b/brel/parsers/XHMTL/elements/parse_resources.py
index e019ce3..54f475e 100644
--- a/brel/parsers/XHMTL/elements/parse_resources.py
+++ b/brel/parsers/XHMTL/elements/parse_resources.py
@@ -4,7 +4,7 @@ from lxml.etree import _Element
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_prefix_localname_tag
+from brel.parsers.utils.lxml_utils import get_child_elements, get_prefix_localname_tag
 
 
 def parse_resources_elements(elements: List[_Element], context: FilingContext):
@@ -17,7 +17,7 @@ def parse_resources_elements(elements: List[_Element], context: FilingContext):
     ) = ([], [], [], [], [])
 
     for element in elements:
-        for child in element:
+        for child in get_child_elements(element):
             child_tag = get_prefix_localname_tag(child)
             if child_tag == "ix:relationship":
                 relationship_elements.append(child)
-- 
2.43.0


From f8be9d440365a251308ab40ab8f4316efd24ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 18/73] fix: stop at circular continuations and report unused
 ones in document order

---
 .../parsers/XHMTL/elements/parse_continuation_chain.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 4cfb02a..8b861dc 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -91,6 +91,10 @@ def create_continuation_chains(
 
                 break
 
+            if continuation in continuation_chain:
+                # The chain is circular. The error has already been reported
+                break
+
             continuation_chain.append(continuation)
             used_continuation_ids.add(continued_at)
             continued_at = get_str_attribute_optional(continuation, "continuedAt")
@@ -109,9 +113,9 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        id for id in continuation_element_index if id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From 6d655170ffd97bf38132fa071601ad04ba97be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:43 +0000
Subject: [PATCH 19/73] fix: escape the markup of inline text once and read
 nested inline numbers

---
 .../XHMTL/elements/parse_non_fraction.py      | 44 ++++++++++++-------
 .../XHMTL/elements/parse_non_numeric.py       | 16 +------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index e607b9b..59cfe7f 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -9,12 +9,12 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_numerical_fact_value,
 )
 from brel.parsers.utils.lxml_utils import (
-    find_element,
+    get_child_elements,
     get_prefix_localname_tag,
     get_str_attribute_optional,
+    get_text,
 )
 from lxml.etree import _Element
-from lxml import etree
 from brel.contexts.filing_context import FilingContext
 
 
@@ -82,8 +82,23 @@ def validate_descendant_non_fraction_rules(
         )
 
 
+def get_innermost_text(element: _Element) -> str:
+    """
+    Get the text that is displayed by nested elements.
+    :param element: The element which contains the text or another element with the text.
+    :return: The text as it is displayed.
+    """
+    children = get_child_elements(element)
+    text = get_text(element) or ""
+
+    if children and text.strip() == "":
+        return get_innermost_text(children[0])
+
+    return text
+
+
 def process_non_fraction_value(
-    fact_element: _Element, error_repository: ErrorRepository
+    fact_element: _Element, fact_value: str, error_repository: ErrorRepository
 ) -> str:
     format = get_str_attribute_optional(fact_element, "format")
     scale = get_str_attribute_optional(fact_element, "scale")
@@ -96,11 +111,6 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
-
-    if not fact_value:
-        fact_value = ""
-
     if not format:
         value = None
         try:
@@ -199,10 +209,11 @@ def parse_non_fraction_fact_element(
             id=id,
         )
 
-    element_text = fact_element.text
-    element_children = [child for child in fact_element]
+    element_text = get_text(fact_element) or ""
+    element_children = get_child_elements(fact_element)
 
-    has_text = element_text != None or any([child.tail for child in element_children])
+    # Whitespace around a child is not text of the fact
+    has_text = element_text.strip() != "" or element_text != "" and not element_children
     has_children = len(element_children) > 0
 
     if has_text and has_children:
@@ -224,11 +235,12 @@ def parse_non_fraction_fact_element(
 
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
-    fact_value = fact_element.text or ""
     if xsi_nil == "true":
         fact_value = ""
     elif has_text:
-        fact_value = process_non_fraction_value(fact_element, error_repository)
+        fact_value = process_non_fraction_value(
+            fact_element, element_text, error_repository
+        )
     else:
         if len(element_children) > 1:
             error_repository.insert(
@@ -243,7 +255,9 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+        # The child reports its own fact with the same text
+        fact_value = process_non_fraction_value(
+            fact_element, get_innermost_text(element_children[0]), error_repository
+        )
 
     return Fact(context, fact_value, id, decimals, precision)
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..bb7ec93 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -32,23 +32,11 @@ def convert_escaped_characters(text: str) -> str:
     return text
 
 
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    text_nodes.append(convert_escaped_characters(content.text or ""))
 
+    # The text of the children and their tails is escaped when they are converted to strings
     for child in content:
         child_str = etree.tostring(child).decode()
         text_nodes.append(child_str)
-- 
2.43.0


From 2020317fbfceebf9f7acf125bc455c4aa2c3c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:12 +0000
Subject: [PATCH 20/73] fix: footnote networks of inline reports have their
 link role and all valid relationships

The link role and the arc role were swapped, a missing or invalid order and
unknown ids failed, and facts or footnotes with several sources had one order.
---
 .../networks/xhtml_parse_footnote_network.py  | 158 +++++++++---------
 1 file changed, 75 insertions(+), 83 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..1d017d6 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -26,6 +26,10 @@ import brel.qnames.qname as qname
 from brel.resource.brel_footnote import BrelFootnote
 
 
+# ids of the sources, ids of the targets, arc role, link role and order
+Arc = Tuple[List[str], List[str], str, str, float]
+
+
 def parse_footnote(
     footnote_element: _Element,
     continuation_chain: List[_Element],
@@ -100,7 +104,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,19 +121,24 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    fromIds = list(dict.fromkeys(fromRefs.split()))
+    toIds = list(dict.fromkeys(toRefs.split()))
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: List[str],
+    toIds: List[str],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> None:
+) -> Tuple[List[str], List[str]]:
+    """
+    Check the ends of a relationship and report errors for those that are not valid.
+    :return: The ids of the sources and the ids of the targets which exist.
+    """
     # Check if any token is repeated in both fromRefs and toRefs - this is illegal
     if any([fromId in toIds for fromId in fromIds]):
         error_repository.insert(
@@ -172,6 +181,11 @@ def validate_relationship_from_and_to_refs(
             relationship_element,
         )
 
+    return (
+        [id for id in fromIds if id not in invalid_from_ids],
+        [id for id in toIds if id not in invalid_to_ids],
+    )
+
 
 def parse_relationship_attributes(
     relationship_element: _Element, error_repository: ErrorRepository
@@ -201,6 +215,7 @@ def parse_relationship_attributes(
         # Assume default linkrole
         linkrole = "http://www.xbrl.org/2003/role/link"
 
+    order = 1.0
     order_str = get_str_attribute_optional(relationship_element, "order")
 
     if order_str:
@@ -213,9 +228,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
@@ -224,12 +236,12 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Arc]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
 
-    validate_relationship_from_and_to_refs(
+    fromIds, toIds = validate_relationship_from_and_to_refs(
         relationship_element,
         fromIds,
         toIds,
@@ -245,96 +257,75 @@ def parse_relationship(
     return (fromIds, toIds, arcrole, linkrole, order)
 
 
-def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+def build_footnote_network_roots(
+    arcs: List[Arc],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
-):
-    all_ids = set()
-    internal_ids = set()
-
-    # Compute Ids of root nodes
-    for from_ids, to_ids, _, _, _ in arcs:
-        all_ids.update(from_ids)
-        all_ids.update(to_ids)
-        internal_ids.update(to_ids)
-
-    root_ids = all_ids - internal_ids
-
-    id_to_node: Dict[str, FootnoteNetworkNode] = {}
-
-    for from_ids, to_ids, arcrole, linkrole, order in arcs:
-        for from_id in from_ids:
-            if from_id not in id_to_node and from_id in root_ids:
-                from_object = fact_repository.get_by_id(from_id)
-                id_to_node[from_id] = FootnoteNetworkNode(
-                    from_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                )
-
-        for to_id in to_ids:
-            if to_id not in id_to_node:
-                to_object = (
-                    footnotes[to_id]
-                    if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
-                )
-
-                if not to_object:
-                    # Error
-                    continue
-
-                id_to_node[to_id] = FootnoteNetworkNode(
-                    to_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                    order,
-                )
-
-    root_nodes = [id_to_node[id] for id in root_ids]
-
-    return id_to_node, root_nodes
-
-
-def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
-    id_to_node: Dict[str, FootnoteNetworkNode],
-):
-    for from_ids, to_ids, _, _, _ in arcs:
+) -> List[FootnoteNetworkNode]:
+    """
+    Build the nodes of a network from its arcs.
+    Each relationship has its own node, since the order belongs to the relationship and not to the object at its end.
+    :param arcs: The arcs of the network. They have the same link role and arc role.
+    :return: The nodes of the objects to which no relationship leads.
+    """
+
+    def get_object(id: str) -> BrelFootnote | Fact:
+        return footnotes[id] if id in footnotes else fact_repository.get_by_id(id)
+
+    def create_node(id: str, arc: Arc, order: float = 1.0) -> FootnoteNetworkNode:
+        _, _, arcrole, linkrole, _ = arc
+        node = FootnoteNetworkNode(
+            get_object(id),
+            [],
+            arcrole,
+            qname.FOOTNOTE_NETWORK_ARCNAME,
+            linkrole,
+            qname.FOOTNOTE_NETWORK_LINKNAME,
+            order,
+        )
+        id_to_nodes[id].append(node)
+        return node
+
+    id_to_nodes: Dict[str, List[FootnoteNetworkNode]] = defaultdict(list)
+    relationships: List[Tuple[str, FootnoteNetworkNode]] = []
+
+    for arc in arcs:
+        from_ids, to_ids, _, _, order = arc
         for from_id, to_id in itertools.product(from_ids, to_ids):
-            from_node = id_to_node[from_id]
-            to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+            if from_id != to_id:
+                relationships.append((from_id, create_node(to_id, arc, order)))
+
+    root_nodes: List[FootnoteNetworkNode] = []
+    for arc in arcs:
+        for from_id in arc[0]:
+            if from_id not in id_to_nodes and arc[1] and arc[1] != [from_id]:
+                root_nodes.append(create_node(from_id, arc))
+
+    for from_id, child_node in relationships:
+        for node in id_to_nodes[from_id]:
+            node._add_child(child_node)
+
+    return root_nodes
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Arc],
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> FootnoteNetwork:
-    id_to_node, root_nodes = create_footnote_network_nodes(
-        arcs, footnotes, fact_repository
-    )
-    connect_footnote_network_nodes(arcs, id_to_node)
+    root_nodes = build_footnote_network_roots(arcs, footnotes, fact_repository)
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Arc],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Arc]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
@@ -343,9 +334,10 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
-        networks.append(network)
+        if network.get_roots():
+            networks.append(network)
 
     return networks
 
-- 
2.43.0


From 72a856ae1c6da1c85f8b8088f6d55a2debbdd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:12 +0000
Subject: [PATCH 21/73] fix: roleRef elements are simple links by their
 xlink:type

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 1d017d6..57c8e8d 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -365,7 +365,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
-- 
2.43.0


From c5760c1eeeb1f1c07c473fce3b3720e3e385a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:52 +0000
Subject: [PATCH 22/73] fix: networks have exactly the relationships that their
 arcs declare

Elements with several parents, labels shared by locators, fractional orders,
relationships split over links and circular relationships lost or changed
relationships, failed, or depended on the iteration order of sets. Arcs and
locators that are not valid are reported instead of failing, and the text of
resources is read completely.
---
 brel/errors/error_code.py                     |   4 +
 brel/errors/error_factory_registry.py         |  28 +
 brel/networks/i_network.py                    |  24 +-
 brel/networks/i_network_node.py               |  22 +-
 brel/parsers/XML/networks/__init__.py         |   6 +-
 .../XML/networks/i_xml_network_factory.py     |  23 +
 .../xml_calculation_network_factory.py        |  16 +-
 .../xml_definition_network_factory.py         |  25 +-
 .../XML/networks/xml_extended_link_parser.py  | 527 +++++++++++-------
 .../networks/xml_footnote_network_factory.py  |  24 +-
 .../XML/networks/xml_label_network_factory.py |  18 +-
 .../XML/networks/xml_networks_parser.py       |  57 +-
 .../xml_presentation_network_factory.py       |  27 +-
 .../networks/xml_reference_network_factory.py |  18 +-
 .../XML/networks/xml_resource_parser.py       |  20 +-
 brel/parsers/utils/lxml_utils.py              |  21 +
 brel/parsers/utils/network_utils.py           |  96 ----
 brel/utils/print_networks.py                  |  13 +-
 18 files changed, 561 insertions(+), 408 deletions(-)
 delete mode 100644 brel/parsers/utils/network_utils.py

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 1ef6a23..e59257c 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -110,6 +110,10 @@ class ErrorCode(Enum):
         UNSUPPORTED_LINK_TYPE,
         DUPLICATE_LINKBASE_ARC,
         MISSING_LINK_ROLE,
+        LINK_ELEMENT_MISSING_ATTRIBUTE,
+        LINK_ELEMENT_INVALID_TARGET,
+        LINKBASE_ARC_UNKNOWN_LABEL,
+        LINKBASE_ARC_INVALID_NUMBER,
         # Label linkbase
         MISSING_LABEL_LANGUAGE,
         # Footnote network
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..bfedb38 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -752,6 +752,34 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "A standard link element is required to have an xlink:role attribute.",
         "Set the xlink:role attribute.",
     ),
+    ErrorCode.LINK_ELEMENT_MISSING_ATTRIBUTE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "403",
+        "The element of the extended link has no {attribute} attribute.",
+        "Add the missing attribute.",
+    ),
+    ErrorCode.LINK_ELEMENT_INVALID_TARGET: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "404",
+        "A link of type {link} can not refer to '{target}'.",
+        "Check the element that the extended link refers to.",
+    ),
+    ErrorCode.LINKBASE_ARC_UNKNOWN_LABEL: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "405",
+        "The arc refers to labels that do not exist in its extended link: {labels}.",
+        "Check the xlink:from and xlink:to attributes of the arc.",
+    ),
+    ErrorCode.LINKBASE_ARC_INVALID_NUMBER: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "406",
+        "The value '{value}' of the attribute {attribute} of the arc is not a number.",
+        "Check the value of the attribute.",
+    ),
     # Label network
     ErrorCode.MISSING_LABEL_LANGUAGE: lambda: ErrorInstance(
         Severity.ERROR,
diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..ec271b2 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -86,8 +86,9 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
-        return list(arc_role_set)
+        return list(
+            dict.fromkeys(node.get_arc_role() for node in self.get_all_nodes())
+        )
 
     def get_arc_name(self) -> QName | None:
         """
@@ -118,21 +119,12 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # a dict keeps the order in which the nodes are found
+        nodes: Dict[INetworkNode, None] = {}
 
-        # recursive function to add all children of a node to the nodes set
-        def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
-            for child in node.get_children():
-                add_children(child)
+        for root in self.get_roots():
+            nodes.update(dict.fromkeys(root.get_all_descendants()))
 
-        # add all children of the root node to the nodes set
-        roots: list[INetworkNode] = self.get_roots()
-        for root in roots:
-            add_children(root)
-
-        # return the nodes set as a list
         return list(nodes)
 
     def convert_to_dict(self) -> Dict[str, Any]:
diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..0aa5707 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,12 +126,14 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
+        # a dict keeps the order in which the nodes are found
+        descendants: Dict["INetworkNode", None] = {}
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
-            worklist.extend(node.get_children())
+            if node not in descendants:
+                descendants[node] = None
+                worklist.extend(reversed(node.get_children()))
 
         return list(descendants)
 
@@ -164,6 +166,16 @@ class INetworkNode(ABC):
         Converts this node to a dictionary
         :returns dict: containing the information of this node
         """
+        return self.__convert_to_dict([])
+
+    def __convert_to_dict(self, ancestors: list["INetworkNode"]) -> Dict[str, Any]:
+        """
+        :param ancestors: the nodes on the path to this node.
+        A node that is its own ancestor has no children in the dictionary, since the relationships are circular.
+        """
+        is_circular = any(ancestor is self for ancestor in ancestors)
+        children = [] if is_circular else self.get_children()
+
         return {
             "points_to": self.points_to(),
             "arc_role": self.get_arc_role(),
@@ -171,5 +183,7 @@ class INetworkNode(ABC):
             "link_role": self.get_link_role(),
             "link_name": self.get_link_name().prefix_local_name_notation(),
             "order": self.get_order(),
-            "children": [child.convert_to_dict() for child in self.get_children()],
+            "children": [
+                child.__convert_to_dict([*ancestors, self]) for child in children
+            ],
         }
diff --git a/brel/parsers/XML/networks/__init__.py b/brel/parsers/XML/networks/__init__.py
index dfa596a..14f0ac5 100644
--- a/brel/parsers/XML/networks/__init__.py
+++ b/brel/parsers/XML/networks/__init__.py
@@ -11,5 +11,9 @@ from .xml_reference_network_factory import ReferenceNetworkFactory
 
 from .xml_resource_parser import parse_xml_resource
 
-from .xml_extended_link_parser import parse_xml_link
+from .xml_extended_link_parser import (
+    create_logical_network,
+    create_physical_networks,
+    parse_xml_link,
+)
 from .xml_networks_parser import parse_networks_from_xmls
diff --git a/brel/parsers/XML/networks/i_xml_network_factory.py b/brel/parsers/XML/networks/i_xml_network_factory.py
index 2afbc86..2660937 100644
--- a/brel/parsers/XML/networks/i_xml_network_factory.py
+++ b/brel/parsers/XML/networks/i_xml_network_factory.py
@@ -16,11 +16,21 @@ from lxml.etree import _Element  # type: ignore
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
 from brel.networks import INetwork, INetworkNode
+from brel.parsers.utils.lxml_utils import (
+    SPECIFICATION_NAMESPACES,
+    get_str_attribute,
+    is_decimal_number,
+)
+from brel.qnames.qname import QName
 from brel.reportelements import IReportElement
 from brel.resource import IResource
 from brel.data.report_element.report_element_repository import ReportElementRepository
 
 
+# the arc name of nodes that are not the target of an arc
+UNKNOWN_ARC_NAME = QName(SPECIFICATION_NAMESPACES["link"], "link", "unknown")
+
+
 class IXMLNetworkFactory(ABC):
     @abstractmethod
     def create_network(self, xml_link: _Element, roots: list[INetworkNode]) -> INetwork:
@@ -37,6 +47,19 @@ class IXMLNetworkFactory(ABC):
     ) -> Optional[INetworkNode]:
         raise NotImplementedError
 
+    def is_valid_target(self, points_to: IReportElement | IResource | Fact) -> bool:
+        """
+        :returns: True if the nodes of the networks of this factory can point to the given object
+        """
+        return isinstance(points_to, IReportElement)
+
+    def get_number(self, xml_arc: _Element, attribute: str, default: float) -> float:
+        """
+        :returns: the value of a numeric attribute of an arc, and the default if it is missing or not a number.
+        """
+        value = get_str_attribute(xml_arc, attribute, "")
+        return float(value) if is_decimal_number(value) else default
+
     def update_report_elements(
         self, report_element_repository: ReportElementRepository, network: INetwork
     ) -> None:
diff --git a/brel/parsers/XML/networks/xml_calculation_network_factory.py b/brel/parsers/XML/networks/xml_calculation_network_factory.py
index 5f6b8b2..92ffe2f 100644
--- a/brel/parsers/XML/networks/xml_calculation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_calculation_network_factory.py
@@ -25,6 +25,7 @@ from brel.networks import (
     INetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
+from brel.parsers.XML.networks.i_xml_network_factory import UNKNOWN_ARC_NAME
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
@@ -67,18 +68,18 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
             weight = 0.0
             arc_role = "unknown"
             order: float = 1
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = UNKNOWN_ARC_NAME
+        elif get_str_attribute(xml_arc, "xlink:to") == label:
+            weight = self.get_number(xml_arc, "weight", 0.0)
+            arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
+            order = self.get_number(xml_arc, "order", 1.0)
+            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             # the node is a root
             weight = 0.0
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
             order = 1
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
-        elif get_str_attribute(xml_arc, "xlink:to") == label:
-            weight = float(xml_arc.attrib.get("weight") or 0.0)
-            arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(get_str_attribute(xml_arc, "order", "1.0"))
-            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
                 f"referenced element {xml_referenced_element} is not connected to arc {xml_arc}"
@@ -104,5 +105,8 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
             order,
         )
 
+    def is_valid_target(self, points_to: IReportElement | IResource | Fact) -> bool:
+        return isinstance(points_to, Concept)
+
     def is_physical(self) -> bool:
         return False
diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..6f3849d 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -25,6 +25,7 @@ from brel.networks import (
     INetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
+from brel.parsers.XML.networks.i_xml_network_factory import UNKNOWN_ARC_NAME
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
@@ -63,17 +64,17 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role = "unknown"
             order = 0.0
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = UNKNOWN_ARC_NAME
+        elif get_str_attribute(xml_arc, "xlink:to", None) == label:
+            # the node is an inner node
+            arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
+            order = self.get_number(xml_arc, "order", 1.0)
+            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             # the node is a root
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
             order = 0.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
-        elif get_str_attribute(xml_arc, "xlink:to", None) == label:
-            # the node is an inner node
-            arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
-            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
                 f"referenced element {xml_referenced_element} is not connected to arc {xml_arc}"
@@ -136,15 +137,15 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            order = 0
-            arc_qname = qname_from_str("link:unknown", xml_link)
-        elif get_str_attribute(xml_arc, "xlink:from") == label:
+            order = 0.0
+            arc_qname = UNKNOWN_ARC_NAME
+        elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = 0
+            order = self.get_number(xml_arc, "order", 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
-        elif get_str_attribute(xml_arc, "xlink:to") == label:
+        elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = 0.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..5732560 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -12,9 +12,8 @@ https://www.xbrl.org/specification/gnl/rec-2009-06-22/gnl-rec-2009-06-22.html
 ====================
 """
 
-import itertools
 from collections import defaultdict
-from typing import Iterable, Optional
+from typing import Hashable, NamedTuple, Optional
 
 import lxml.etree
 
@@ -33,15 +32,88 @@ from brel.parsers.XML.networks import (
     parse_xml_resource,
 )
 from brel.parsers.utils.lxml_utils import (
+    SPECIFICATION_NAMESPACES,
     find_elements,
     get_str_attribute,
+    get_str_attribute_optional,
     get_clark_notation_tag,
+    is_decimal_number,
 )
 from brel.reportelements import *
 from brel.resource import *
 from brel.contexts.filing_context import FilingContext
 
 
+class LinkEnd(NamedTuple):
+    """
+    A locator or a resource of an extended link, and the object that it stands for.
+    """
+
+    xml_element: lxml.etree._Element  # type: ignore
+    target: IResource | IReportElement | Fact
+
+    def get_key(self) -> Hashable:
+        """
+        :returns: the same key for all locators of the same object
+        """
+        if isinstance(self.target, IReportElement):
+            return self.target.get_name()
+
+        return id(self.target)
+
+
+class Relationship(NamedTuple):
+    """
+    A relationship between two ends of an extended link. An arc declares one for each pair of ends with its labels.
+    """
+
+    xml_link: lxml.etree._Element  # type: ignore
+    xml_arc: lxml.etree._Element  # type: ignore
+    source: LinkEnd
+    target: LinkEnd
+
+    def get_arc_role(self) -> str:
+        return get_str_attribute(self.xml_arc, "xlink:arcrole")
+
+    def get_key(self) -> Hashable:
+        """
+        :returns: the same key for all equivalent relationships.
+        They have the same source, target, arc role, arc name and attributes.
+        """
+
+        def normalize(value: str) -> str | float:
+            try:
+                return float(value)
+            except ValueError:
+                return value
+
+        attributes = {"order": "1"} | {
+            str(name): str(value)
+            for name, value in self.xml_arc.attrib.items()
+            if name not in ("use", "priority")
+            and not str(name).startswith(f"{{{SPECIFICATION_NAMESPACES['xlink']}}}")
+        }
+
+        return (
+            self.source.get_key(),
+            self.target.get_key(),
+            self.get_arc_role(),
+            get_clark_notation_tag(self.xml_arc),
+            frozenset((name, normalize(value)) for name, value in attributes.items()),
+        )
+
+
+class ExtendedLink(NamedTuple):
+    """
+    The content of an extended link in document order.
+    """
+
+    xml_link: lxml.etree._Element  # type: ignore
+    factories: list[IXMLNetworkFactory]
+    ends: list[LinkEnd]
+    relationships: list[Relationship]
+
+
 def get_object_from_reference(
     referenced_element: lxml.etree._Element,  # type: ignore
     filing_context: FilingContext,
@@ -55,7 +127,7 @@ def get_object_from_reference(
     if referenced_element_type == "locator":
         locator_target_element: IReportElement | IResource | Fact | None = None
 
-        href = get_str_attribute(referenced_element, "xlink:href")
+        href = get_str_attribute(referenced_element, "xlink:href", "")
 
         elem_id = href.split("#")[-1]
 
@@ -85,209 +157,268 @@ def get_object_from_reference(
     return locator_target_element
 
 
-def parse_xml_link(
+def get_network_factories(
+    context: FilingContext, xml_link_element: lxml.etree._Element  # type: ignore
+) -> list[IXMLNetworkFactory]:
+    tag = get_clark_notation_tag(xml_link_element)
+
+    if "presentationLink" in tag:
+        return [PresentationNetworkFactory()]
+    elif "calculationLink" in tag:
+        return [CalculationNetworkFactory()]
+    elif "definitionLink" in tag:
+        # for definition networks we need to create both a physical and a logical network
+        return [PhysicalDefinitionNetworkFactory(), LogicalDefinitionNetworkFactory()]
+    elif "labelLink" in tag:
+        return [LabelNetworkFactory()]
+    elif "referenceLink" in tag:
+        return [ReferenceNetworkFactory()]
+    elif "footnoteLink" in tag:
+        return [FootnoteNetworkFactory()]
+
+    context.get_error_repository().insert(
+        ErrorCode.UNSUPPORTED_LINK_TYPE, xml_link_element, type=tag
+    )
+    return []
+
+
+def parse_link_ends(
     context: FilingContext,
     xml_link_element: lxml.etree._Element,  # type: ignore
-) -> Iterable[INetwork]:
+    factories: list[IXMLNetworkFactory],
+) -> tuple[list[LinkEnd], dict[str, list[LinkEnd]]]:
+    """
+    Parse the locators and resources of an extended link.
+    :returns: the ends that can be part of a network, and all labels with their ends.
+    A label without ends belongs to locators and resources for which an error was reported.
+    """
     error_repository = context.get_error_repository()
-    networks: list[INetwork] = []
-    network_factories: list[IXMLNetworkFactory] = []
-
-    if "presentationLink" in get_clark_notation_tag(xml_link_element):
-        network_factories.append(PresentationNetworkFactory())
-    elif "calculationLink" in get_clark_notation_tag(xml_link_element):
-        network_factories.append(CalculationNetworkFactory())
-    elif "definitionLink" in get_clark_notation_tag(xml_link_element):
-        # for definition networks we need to create both a physical and a logical network
-        network_factories.append(PhysicalDefinitionNetworkFactory())
-        network_factories.append(LogicalDefinitionNetworkFactory())
-    elif "labelLink" in get_clark_notation_tag(xml_link_element):
-        network_factories.append(LabelNetworkFactory())
-    elif "referenceLink" in get_clark_notation_tag(xml_link_element):
-        network_factories.append(ReferenceNetworkFactory())
-    elif "footnoteLink" in get_clark_notation_tag(xml_link_element):
-        network_factories.append(FootnoteNetworkFactory())
-    else:
-        error_repository.insert(
-            ErrorCode.UNSUPPORTED_LINK_TYPE,
-            xml_link_element,
-            type=get_clark_notation_tag(xml_link_element),
-        )
+    ends: list[LinkEnd] = []
+    ends_by_label: dict[str, list[LinkEnd]] = defaultdict(list)
+
+    for xml_element in find_elements(
+        xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
+    ):
+        label = get_str_attribute_optional(xml_element, "xlink:label")
+        if label is None:
+            error_repository.insert(
+                ErrorCode.LINK_ELEMENT_MISSING_ATTRIBUTE,
+                xml_element,
+                attribute="xlink:label",
+            )
+            continue
+
+        label_ends = ends_by_label[label]
 
-    for network_factory in network_factories:
-        nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
-        node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
-
-        for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
-            arc_from = get_str_attribute(arc_element, "xlink:from")
-            arc_to = get_str_attribute(arc_element, "xlink:to")
-            arc_role = get_str_attribute(arc_element, "xlink:arcrole")
-
-            if (arc_from, arc_to, arc_role) in edges:
-                error_repository.insert(
-                    ErrorCode.DUPLICATE_LINKBASE_ARC,
-                    arc_element,
-                    arc_from=arc_from,
-                    arc_to=arc_to,
-                )
-                continue
-
-            edges.add((arc_from, arc_to, arc_role))
-            node_to_arcs[arc_from].append(arc_element)
-            node_to_arcs[arc_to].append(arc_element)
-
-        for link_element in find_elements(
-            xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
-        ):
-            label = get_str_attribute(link_element, "xlink:label")
-            to_object: Optional[
-                IResource | IReportElement | Fact
-            ] = get_object_from_reference(link_element, context)
-
-            if to_object is None:
-                continue
-
-            node_arcs = node_to_arcs[label]
-            arcs_to = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:to", "") == label,
-                    node_arcs,
-                )
+        target = get_object_from_reference(xml_element, context)
+        if target is None:
+            continue
+
+        if not all(factory.is_valid_target(target) for factory in factories):
+            error_repository.insert(
+                ErrorCode.LINK_ELEMENT_INVALID_TARGET,
+                xml_element,
+                target=str(target),
+                link=get_clark_notation_tag(xml_link_element),
+            )
+            continue
+
+        end = LinkEnd(xml_element, target)
+        label_ends.append(end)
+        ends.append(end)
+
+    return ends, ends_by_label
+
+
+def validate_arc_numbers(
+    context: FilingContext, arc_element: lxml.etree._Element  # type: ignore
+) -> None:
+    """
+    Report attributes of an arc that should be numbers, but are not.
+    """
+    for attribute in ("order", "weight"):
+        value = get_str_attribute_optional(arc_element, attribute)
+        if value is not None and not is_decimal_number(value):
+            context.get_error_repository().insert(
+                ErrorCode.LINKBASE_ARC_INVALID_NUMBER,
+                arc_element,
+                attribute=attribute,
+                value=value,
             )
-            arcs_from = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:from", "") == label,
-                    node_arcs,
-                )
+
+
+def parse_xml_link(
+    context: FilingContext,
+    xml_link_element: lxml.etree._Element,  # type: ignore
+) -> ExtendedLink:
+    """
+    Parse the locators, resources and arcs of an extended link.
+    What is not valid is reported as an error and is not part of the result.
+    """
+    error_repository = context.get_error_repository()
+    factories = get_network_factories(context, xml_link_element)
+    if not factories:
+        return ExtendedLink(xml_link_element, [], [], [])
+
+    ends, ends_by_label = parse_link_ends(context, xml_link_element, factories)
+    relationships: list[Relationship] = []
+    edges: set[tuple[str, str, str]] = set()
+
+    for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
+        missing_attributes = [
+            attribute
+            for attribute in ("xlink:from", "xlink:to", "xlink:arcrole")
+            if get_str_attribute_optional(arc_element, attribute) is None
+        ]
+        if missing_attributes:
+            error_repository.insert(
+                ErrorCode.LINK_ELEMENT_MISSING_ATTRIBUTE,
+                arc_element,
+                attribute=", ".join(missing_attributes),
             )
+            continue
 
-            if network_factory.is_physical():
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    outgoing_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
-                    )
-
-                    incoming_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
-                    )
-
-                    for role_type in incoming_role_types.union(outgoing_role_types):
-                        node_arcs.sort(
-                            key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
-                            reverse=True,
-                        )
-
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
-                        )
-
-                        node = network_factory.create_node(
-                            xml_link_element,
-                            link_element,
-                            arc,
-                            to_object,
-                            error_repository,
-                        )
-
-                        if node is None:
-                            continue
-
-                        if role_type not in incoming_role_types:
-                            roots.add(node)
-                        nodes_lookup[label].append(node)
-
-            else:
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
-
-                    if node is None:
-                        continue
-
-                    if len(arcs_to) == 0:
-                        roots.add(node)
-                    nodes_lookup[label].append(node)
-
-        # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for arc_from, arc_to, arc_role in edges:
-            from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
-
-            if network_factory.is_physical():
-                from_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
-                )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
-                )
-
-            for from_node, to_node in itertools.product(from_nodes, to_nodes):
-                # Now we can link the nodes
-                from_node._add_child(to_node)  # type: ignore
-
-        # third pass. If the network is physical, create a network for each arcrole in the roots
-        # if the network is logical (not physical), create a single network with all the roots
-        # Networks have to be non-empty, so if there are no roots, we skip this step
-        if len(roots) == 0:
+        arc_from = get_str_attribute(arc_element, "xlink:from")
+        arc_to = get_str_attribute(arc_element, "xlink:to")
+        arc_role = get_str_attribute(arc_element, "xlink:arcrole")
+
+        unknown_labels = [
+            label for label in (arc_from, arc_to) if label not in ends_by_label
+        ]
+        if unknown_labels:
+            error_repository.insert(
+                ErrorCode.LINKBASE_ARC_UNKNOWN_LABEL,
+                arc_element,
+                labels=", ".join(unknown_labels),
+            )
             continue
 
-        if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
-            for role_type in role_types:
-                role_type_roots = [
-                    node for node in roots if node.get_arc_role() == role_type
-                ]
-                network = network_factory.create_network(
-                    xml_link_element, role_type_roots
-                )
-                network_factory.update_report_elements(
-                    context.get_report_element_repository(), network
-                )
-                networks.append(network)
-        else:
-            root_nodes = list(roots)
-            network = network_factory.create_network(xml_link_element, root_nodes)
-            network_factory.update_report_elements(
-                context.get_report_element_repository(), network
+        if (arc_from, arc_to, arc_role) in edges:
+            error_repository.insert(
+                ErrorCode.DUPLICATE_LINKBASE_ARC,
+                arc_element,
+                arc_from=arc_from,
+                arc_to=arc_to,
             )
-            networks.append(network)
+            continue
+
+        edges.add((arc_from, arc_to, arc_role))
+        validate_arc_numbers(context, arc_element)
+        relationships.extend(
+            Relationship(xml_link_element, arc_element, source, target)
+            for source in ends_by_label[arc_from]
+            for target in ends_by_label[arc_to]
+        )
+
+    return ExtendedLink(xml_link_element, factories, ends, relationships)
+
+
+def create_network(
+    context: FilingContext,
+    factory: IXMLNetworkFactory,
+    isolated_ends: list[tuple[lxml.etree._Element, LinkEnd]],  # type: ignore
+    relationships: list[Relationship],
+) -> Optional[INetwork]:
+    """
+    Create a network from relationships and from ends without any relationship.
+    Every relationship has a node, which has the attributes of its arc. The objects that are not the target of a relationship are the roots.
+    :returns: the network. None if there are no roots, since networks have to be non-empty
+    """
+    error_repository = context.get_error_repository()
+    nodes_lookup: dict[Hashable, list[INetworkNode]] = defaultdict(list)
+    roots: list[INetworkNode] = []
+    edges: list[tuple[Hashable, INetworkNode]] = []
+
+    # first pass. Create a node for each relationship.
+    # Equivalent relationships, for example from different links, are the same relationship
+    distinct_relationships: dict[Hashable, Relationship] = {}
+    for relationship in relationships:
+        distinct_relationships.setdefault(relationship.get_key(), relationship)
+
+    for link, arc, source, target in distinct_relationships.values():
+        node = factory.create_node(
+            link, target.xml_element, arc, target.target, error_repository
+        )
+        if node is not None:
+            nodes_lookup[target.get_key()].append(node)
+            edges.append((source.get_key(), node))
+
+    # second pass. Create a node for each root
+    for link, arc, end in [
+        (link, arc, source)
+        for link, arc, source, _ in distinct_relationships.values()
+    ] + [(link, None, end) for link, end in isolated_ends]:
+        if end.get_key() in nodes_lookup:
+            continue
+
+        node = factory.create_node(
+            link, end.xml_element, arc, end.target, error_repository
+        )
+        if node is not None:
+            nodes_lookup[end.get_key()].append(node)
+            roots.append(node)
+
+    # third pass. All nodes of an object have the same children
+    for source_key, child in edges:
+        for node in nodes_lookup[source_key]:
+            node._add_child(child)
+
+    if not roots:
+        return None
 
-    return networks
+    xml_link = isolated_ends[0][0] if isolated_ends else relationships[0].xml_link
+    network = factory.create_network(xml_link, roots)
+    factory.update_report_elements(context.get_report_element_repository(), network)
+    return network
+
+
+def create_physical_networks(
+    context: FilingContext, factory: IXMLNetworkFactory, link: ExtendedLink
+) -> list[INetwork]:
+    """
+    Create the physical networks of an extended link. There is one for each arc role.
+    """
+    relationships_by_arc_role: dict[str, list[Relationship]] = defaultdict(list)
+    for relationship in link.relationships:
+        relationships_by_arc_role[relationship.get_arc_role()].append(relationship)
+
+    networks = [
+        create_network(context, factory, [], relationships)
+        for relationships in relationships_by_arc_role.values()
+    ]
+    networks.append(create_isolated_network(context, factory, link))
+
+    return [network for network in networks if network is not None]
+
+
+def create_isolated_network(
+    context: FilingContext, factory: IXMLNetworkFactory, link: ExtendedLink
+) -> Optional[INetwork]:
+    """
+    Create the physical network of the ends of an extended link that do not have any relationship.
+    """
+    connected_keys = {
+        end.get_key()
+        for relationship in link.relationships
+        for end in (relationship.source, relationship.target)
+    }
+    isolated_ends = [
+        (link.xml_link, end)
+        for end in link.ends
+        if end.get_key() not in connected_keys
+    ]
+    return create_network(context, factory, isolated_ends, [])
+
+
+def create_logical_network(
+    context: FilingContext, factory: IXMLNetworkFactory, links: list[ExtendedLink]
+) -> Optional[INetwork]:
+    """
+    Create the logical network of all extended links of the same kind that have the same role.
+    """
+    return create_network(
+        context,
+        factory,
+        [(link.xml_link, end) for link in links for end in link.ends],
+        [relationship for link in links for relationship in link.relationships],
+    )
diff --git a/brel/parsers/XML/networks/xml_footnote_network_factory.py b/brel/parsers/XML/networks/xml_footnote_network_factory.py
index c00247a..222d381 100644
--- a/brel/parsers/XML/networks/xml_footnote_network_factory.py
+++ b/brel/parsers/XML/networks/xml_footnote_network_factory.py
@@ -27,6 +27,7 @@ from brel.networks import (
     INetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
+from brel.parsers.XML.networks.i_xml_network_factory import UNKNOWN_ARC_NAME
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
@@ -70,31 +71,31 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role: str = "unknown"
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = UNKNOWN_ARC_NAME
         elif (
             get_str_attribute(
-                xml_arc, to_namespace_localname_notation("xlink", "from"), None
+                xml_arc, to_namespace_localname_notation("xlink", "to"), None
             )
             == label
         ):
-            # the node is a root
+            # the node is an inner node
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            order = self.get_number(xml_arc, "order", 1.0)
+            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif (
             get_str_attribute(
-                xml_arc, to_namespace_localname_notation("xlink", "to"), None
+                xml_arc, to_namespace_localname_notation("xlink", "from"), None
             )
             == label
         ):
-            # the node is an inner node
+            # the node is a root
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(xml_arc.attrib.get("order") or 1)
-            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
+            order = 1.0
+            arc_qname = UNKNOWN_ARC_NAME
         else:
             raise ValueError(
                 f"referenced element {xml_referenced_element} is not connected to arc {xml_arc}"
@@ -114,5 +115,10 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
             points_to, [], arc_role, arc_qname, link_role, link_name, order
         )
 
+    def is_valid_target(self, points_to: IReportElement | IResource | Fact) -> bool:
+        return not isinstance(points_to, IResource) or isinstance(
+            points_to, BrelFootnote
+        )
+
     def is_physical(self) -> bool:
         return True
diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..194c87c 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -25,6 +25,7 @@ from brel.networks import (
     LabelNetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
+from brel.parsers.XML.networks.i_xml_network_factory import UNKNOWN_ARC_NAME
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
@@ -64,15 +65,15 @@ class LabelNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            arc_qname = qname_from_str("link:unknown", xml_link)
-        elif get_str_attribute(xml_arc, "xlink:from") == label:
-            # the node is a root
-            arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
+            arc_qname = UNKNOWN_ARC_NAME
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
+        elif get_str_attribute(xml_arc, "xlink:from") == label:
+            # the node is a root
+            arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
+            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
                 f"referenced element {xml_referenced_element} is not connected to arc {xml_arc}"
@@ -105,18 +106,21 @@ class LabelNetworkFactory(IXMLNetworkFactory):
             if not isinstance(root, LabelNetworkNode):
                 raise TypeError("roots must all be of type LabelNetworkNode")
             if not root.points_to() == "report element":
-                raise ValueError(f"root {root} is not a report element")
+                continue
 
             report_element = root.get_report_element()
             for label_node in root.get_children():
                 if not isinstance(label_node, LabelNetworkNode):
                     raise TypeError("children must all be of type LabelNetworkNode")
                 if not label_node.points_to() == "resource":
-                    raise ValueError(f"child {label_node} is not a resource")
+                    continue
 
                 label = label_node.get_resource()
 
                 report_element._add_label(label)  # type: ignore
 
+    def is_valid_target(self, points_to: IReportElement | IResource | Fact) -> bool:
+        return isinstance(points_to, (IReportElement, BrelLabel))
+
     def is_physical(self) -> bool:
         return True
diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..146dcfc 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -16,7 +16,12 @@ from importlib.resources import files
 from lxml.etree import _Element  # type: ignore
 from brel.errors.error_code import ErrorCode
 from brel.networks import *
-from brel.parsers.XML.networks import parse_xml_link
+from brel.parsers.XML.networks import (
+    create_logical_network,
+    create_physical_networks,
+    parse_xml_link,
+)
+from brel.parsers.XML.networks.xml_extended_link_parser import ExtendedLink
 from brel.parsers.XML.table_linkbase.xml_table_linkbase_parser import (
     parse_table_linkbase_from_xml,
 )
@@ -25,8 +30,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute,
     get_str_attribute_optional,
 )
-from brel.parsers.utils.network_utils import combine_networks
-from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import *
 from brel.resource import *
 
@@ -62,8 +65,7 @@ def parse_networks_from_xmls(
     error_repository: ErrorRepository = context.get_error_repository()
     network_repository: NetworkRepository = context.get_network_repository()
     xml_service = context.get_xml_service()
-    networks: dict[str, list[INetwork]] = defaultdict(list)
-    combined_networks: dict[str, list[INetwork]] = defaultdict(list)
+    links: dict[str, list[ExtendedLink]] = defaultdict(list)
 
     def is_standard_role(role: str) -> bool:
         return any(standard_role in role for standard_role in STANDARD_LINK_ROLES)
@@ -83,44 +85,35 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
 
-    # First pass: parse networks
+    # First pass: parse links
     for link_xml in link_xmls:
-        link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
-        )
+        link_role = get_str_attribute_optional(link_xml, "xlink:role")
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
             continue
 
-        link_networks = parse_xml_link(context, link_xml)
-        if link_networks is None:
-            continue
-
-        networks[link_role].extend(link_networks)
-
-    # Second pass: combine networks if they are of the same type
-    for role, network_list in networks.items():
-        networks_by_type: dict[type, list[INetwork]] = defaultdict(list)
-
-        combined_network_list: list[INetwork] = []
-        for network in network_list:
-            if network.is_physical():
-                combined_network_list.append(network)
-            else:
-                networks_by_type[type(network)].append(network)
+        links[link_role].append(parse_xml_link(context, link_xml))
 
-        for network_type_list in networks_by_type.values():
-            combined_network_list.append(combine_networks(network_type_list))
+    # Second pass: create the networks. Links of the same kind and role make up one logical network
+    for role_links in links.values():
+        links_by_factory: dict[type, list[ExtendedLink]] = defaultdict(list)
 
-        combined_networks[role] = combined_network_list
+        for link in role_links:
+            for factory in link.factories:
+                if factory.is_physical():
+                    for network in create_physical_networks(context, factory, link):
+                        network_repository.upsert(network)
+                else:
+                    links_by_factory[type(factory)].append(link)
 
-    for role, network_list in combined_networks.items():
-        for network in network_list:
-            network_repository.upsert(network)
+        for factory_type, factory_links in links_by_factory.items():
+            network = create_logical_network(context, factory_type(), factory_links)
+            if network is not None:
+                network_repository.upsert(network)
 
     parse_table_linkbase_from_xml(context)
diff --git a/brel/parsers/XML/networks/xml_presentation_network_factory.py b/brel/parsers/XML/networks/xml_presentation_network_factory.py
index a3a0bbd..20f4ba4 100644
--- a/brel/parsers/XML/networks/xml_presentation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_presentation_network_factory.py
@@ -29,6 +29,7 @@ from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.qnames.qname_utils import qname_from_str, to_namespace_localname_notation
 from brel.reportelements import IReportElement
 from brel.parsers.XML.networks import IXMLNetworkFactory
+from brel.parsers.XML.networks.i_xml_network_factory import UNKNOWN_ARC_NAME
 from brel.resource import BrelLabel, IResource
 
 
@@ -80,36 +81,36 @@ class PresentationNetworkFactory(IXMLNetworkFactory):
             preferred_label_role = None
             arc_role = "unknown"
             order: float = 1
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = UNKNOWN_ARC_NAME
         elif (
             get_str_attribute(
-                xml_arc, to_namespace_localname_notation("xlink", "from"), None
+                xml_arc, to_namespace_localname_notation("xlink", "to"), None
             )
             == label
         ):
-            # the node is a root
-            preferred_label_role = None
+            # the node is an inner node
+            preferred_label = get_str_attribute(
+                xml_arc, "preferredLabel", BrelLabel.STANDARD_LABEL_ROLE
+            )
+
+            preferred_label_role = preferred_label
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = 1
+            order = self.get_number(xml_arc, "order", 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif (
             get_str_attribute(
-                xml_arc, to_namespace_localname_notation("xlink", "to"), None
+                xml_arc, to_namespace_localname_notation("xlink", "from"), None
             )
             == label
         ):
-            # the node is an inner node
-            preferred_label = get_str_attribute(
-                xml_arc, "preferredLabel", BrelLabel.STANDARD_LABEL_ROLE
-            )
-
-            preferred_label_role = preferred_label
+            # the node is a root
+            preferred_label_role = None
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(get_str_attribute(xml_arc, "order", "1"))
+            order = 1
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
diff --git a/brel/parsers/XML/networks/xml_reference_network_factory.py b/brel/parsers/XML/networks/xml_reference_network_factory.py
index 0886d1a..691bac9 100644
--- a/brel/parsers/XML/networks/xml_reference_network_factory.py
+++ b/brel/parsers/XML/networks/xml_reference_network_factory.py
@@ -25,6 +25,7 @@ from brel.networks import (
     ReferenceNetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
+from brel.parsers.XML.networks.i_xml_network_factory import UNKNOWN_ARC_NAME
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.qnames.qname_utils import qname_from_str, to_namespace_localname_notation
 from brel.reportelements import *
@@ -66,30 +67,30 @@ class ReferenceNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role = "unknown"
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = UNKNOWN_ARC_NAME
         elif (
             get_str_attribute(
-                xml_arc, to_namespace_localname_notation("xlink", "from"), None
+                xml_arc, to_namespace_localname_notation("xlink", "to"), None
             )
             == label
         ):
-            # the node is a root
+            # the node is an inner node
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = 1.0
+            order = self.get_number(xml_arc, "order", 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif (
             get_str_attribute(
-                xml_arc, to_namespace_localname_notation("xlink", "to"), None
+                xml_arc, to_namespace_localname_notation("xlink", "from"), None
             )
             == label
         ):
-            # the node is an inner node
+            # the node is a root
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(xml_arc.attrib.get("order") or 1)
+            order = 1.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -112,5 +113,8 @@ class ReferenceNetworkFactory(IXMLNetworkFactory):
             points_to, [], arc_role, arc_qname, link_role, link_name, order
         )
 
+    def is_valid_target(self, points_to: IReportElement | IResource | Fact) -> bool:
+        return isinstance(points_to, (IReportElement, BrelReference))
+
     def is_physical(self) -> bool:
         return True
diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..6f2636e 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -16,9 +16,12 @@ from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 from brel.resource import IResource, BrelFootnote, BrelLabel, BrelReference
 from brel.parsers.utils.lxml_utils import (
+    get_child_elements,
     get_elem_lang_recursive,
     get_str_attribute,
     get_clark_notation_tag,
+    get_string_value,
+    get_text,
 )
 
 
@@ -31,7 +34,6 @@ def parse_xml_resource(
         raise ValueError("The xlink:type is not resource")
 
     label = get_str_attribute(xml_element, "xlink:label")
-    role = get_str_attribute(xml_element, "xlink:role")
     tag = get_clark_notation_tag(xml_element)
 
     if "label" in tag:
@@ -41,7 +43,10 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        role = get_str_attribute(
+            xml_element, "xlink:role", BrelLabel.STANDARD_LABEL_ROLE
+        )
+        text = get_string_value(xml_element)
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -52,11 +57,18 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        role = get_str_attribute(
+            xml_element, "xlink:role", "http://www.xbrl.org/2003/role/footnote"
+        )
+        text = get_string_value(xml_element)
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
+        role = get_str_attribute(
+            xml_element, "xlink:role", "http://www.xbrl.org/2003/role/reference"
+        )
         content = {
-            re.sub(r"^\{.*\}", "", child.tag): child.text for child in xml_element
+            re.sub(r"^\{.*\}", "", child.tag): get_text(child)
+            for child in get_child_elements(xml_element)
         }
         return BrelReference(content, label, role)
     else:
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 6a52d54..fb4d4e3 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import re
 from copy import deepcopy
 from typing import Dict, List, Mapping, Optional, cast
 from brel.qnames.qname import QName
@@ -104,6 +105,15 @@ def get_text(element: _Element) -> str | None:
     return "".join(text_nodes) if text_nodes else None
 
 
+def get_string_value(element: _Element) -> str:
+    """
+    Helper function for getting the whole text of an element and its descendants, without comments and processing instructions.
+    :param element: lxml.etree.Element to get the text from
+    :returns: str containing the text of the element
+    """
+    return str(element.xpath("string()"))
+
+
 def get_collapsed_text(element: _Element) -> str | None:
     """
     Helper function for getting the text of an element, where XML schema prescribes that whitespace is collapsed.
@@ -115,6 +125,17 @@ def get_collapsed_text(element: _Element) -> str | None:
     return None if text is None else " ".join(text.split())
 
 
+def is_decimal_number(value: str) -> bool:
+    """
+    Helper function for checking if a string is a number according to the decimal type of XML schema.
+    :param value: str to check
+    :returns: bool indicating if the string is a number
+    """
+    return (
+        re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", value.strip()) is not None
+    )
+
+
 def get_child_elements(element: _Element) -> list[_Element]:
     """
     Helper function for getting the child elements of an element, without comments and processing instructions.
diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
deleted file mode 100644
index d6b369d..0000000
--- a/brel/parsers/utils/network_utils.py
+++ /dev/null
@@ -1,96 +0,0 @@
-from brel.networks import INetwork, INetworkNode
-
-# from brel.utils import pprint
-from functools import cmp_to_key
-
-
-def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
-    # checks if two nodes have the same type and point to the same thing
-    if not isinstance(other, INetworkNode):
-        return False
-
-    # two nodes are equal if they
-    # 1. have the same type
-    # 2. point to the same thing
-    if type(self) != type(other):
-        return False
-
-    if self.points_to() != other.points_to():
-        return False
-
-    if self.points_to() == "resource":
-        return self.get_resource() == other.get_resource()
-    elif self.points_to() == "report element":
-        return self.get_report_element() == other.get_report_element()
-    elif self.points_to() == "fact":
-        return self.get_fact() == other.get_fact()
-    else:
-        return False
-
-
-def combine_networks(networks: list[INetwork]) -> INetwork:
-    """
-    Combine a list of networks into one network.
-    This method destroys the original networks.
-    :param networks: The networks to combine.
-    :returns INetwork: The combined network.
-    """
-    if len(networks) == 0:
-        raise ValueError("No networks provided.")
-
-    # this algorithm works with the following steps:
-    # 1. Get an order of the networks. Networks closer to the root come first.
-    # 2. Create an empty aggregate network.
-    # 3. For each network in the order, add the roots to the aggregate network nodes as children.
-
-    if len(networks) == 1:
-        return networks[0]
-
-    # Step 1. sort the networks by prerequisite
-
-    def is_prerequisite(n1: INetwork, n2: INetwork) -> int:
-        # n1 is a prerequisite of n2 if all roots of n2 are in n1
-        # and if the roots of n2 are not a subset of the roots of n1
-        n1_roots = n1.get_roots()
-        n2_roots = n2.get_roots()
-
-        n1_nodes = n1.get_all_nodes()
-
-        result = all((n2_root in n1_nodes for n2_root in n2_roots)) and not all(
-            (n2_root in n1_roots for n2_root in n2_roots)
-        )
-
-        if result:
-            return -1
-        else:
-            return 1
-
-    networks_sorted = networks.copy()
-    sorted(networks_sorted, key=cmp_to_key(is_prerequisite))
-
-    # Step 2. Make an aggregate network.
-    # In this case we re-use the first network as the aggregate network.
-    agg_network = networks_sorted.pop()
-    agg_roots = agg_network.get_roots()
-
-    def get_all_nodes():
-        all_nodes = []
-        for root in agg_roots:
-            all_nodes.extend(root.get_all_descendants())
-        return all_nodes
-
-    # Step 3. Add the roots of each network to the aggregate network.
-    # if there is a node in the aggregate network that fits, then add the children of the root to that node.
-    # otherwise, add the root to the aggregate networks roots.
-    while len(networks_sorted) > 0:
-        network = networks_sorted.pop()
-        aggregate_nodes = get_all_nodes()
-        for root in network.get_roots():
-            parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
-            if parent is None:
-                agg_roots.append(root)
-            else:
-                for child in root.get_children():
-                    parent._add_child(child)
-
-    return agg_network
diff --git a/brel/utils/print_networks.py b/brel/utils/print_networks.py
index 8917aa8..24ad2bf 100644
--- a/brel/utils/print_networks.py
+++ b/brel/utils/print_networks.py
@@ -36,7 +36,9 @@ tag_lookup: dict[type, str] = {
 PADDING = max(map(lambda x: len(x), tag_lookup.values()))
 
 
-def __print_sub_network(node: INetworkNode, last=True, header="") -> None:
+def __print_sub_network(
+    node: INetworkNode, last=True, header="", ancestors: tuple = ()
+) -> None:
     output_string = ""
 
     node_is_a = node.points_to()
@@ -81,6 +83,9 @@ def __print_sub_network(node: INetworkNode, last=True, header="") -> None:
 
         output_string += type_str + " " + node_as_str
 
+    elif node_is_a == "fact":
+        output_string += "[FACT] " + str(node.get_fact())
+
     if hasattr(node, "get_weight"):
         weight = getattr(node, "get_weight")()
         weight_str = f"[W={weight:4}] "
@@ -100,11 +105,13 @@ def __print_sub_network(node: INetworkNode, last=True, header="") -> None:
         print(header + (ELBOW if last else TEE) + output_string)
     except UnicodeEncodeError:
         print((header + (ELBOW if last else TEE) + output_string).encode("utf-8"))
-    children = node.get_children()
+    # a node that is its own ancestor is not expanded again, since the relationships are circular
+    is_circular = any(ancestor is node for ancestor in ancestors)
+    children = [] if is_circular else node.get_children()
     for index, child in enumerate(children):
         is_last_child = index == len(children) - 1
         child_header = header + (SPACE if last else PIPE)
-        __print_sub_network(child, is_last_child, child_header)
+        __print_sub_network(child, is_last_child, child_header, (*ancestors, node))
 
 
 def pprint_network_node(node: INetworkNode):
-- 
2.43.0


From 1767abbf8877aa591e9b75c348535b189bdd197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:38 +0000
Subject: [PATCH 23/73] fix: find the documents of a report by their
 references, whatever the spelling, encoding or order

---
 brel/contexts/filing_context.py               |   1 +
 brel/data/xml/xml_repository.py               |  20 +-
 brel/errors/error_code.py                     |   2 +
 brel/errors/error_factory_registry.py         |  14 ++
 brel/parsers/utils/url_utils.py               |  47 ++++-
 brel/services/factory.py                      |   7 +-
 brel/services/file/file_service.py            |  48 +++--
 brel/services/xml/xml_file_parser_resolver.py |   5 +-
 brel/services/xml/xml_service.py              | 196 ++++++++++++------
 9 files changed, 250 insertions(+), 90 deletions(-)

diff --git a/brel/contexts/filing_context.py b/brel/contexts/filing_context.py
index 3fa8d28..27c8028 100644
--- a/brel/contexts/filing_context.py
+++ b/brel/contexts/filing_context.py
@@ -124,6 +124,7 @@ class FilingContext:
                 self.get_file_service(),
                 self.get_xml_repository(),
                 self.get_uri_rewrite_repository(),
+                self.get_error_repository(),
             ),
         )
 
diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..e204007 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -19,22 +19,24 @@ from brel.parsers.utils.lxml_xpath_utils import add_xpath_functions
 class XMLRepository:
     def __init__(self) -> None:
         self.__xml_etree_cache: dict[str, lxml.etree._ElementTree] = {}
+        self.__uris: dict[lxml.etree._Element, str] = {}
         add_xpath_functions()
 
-    def normalize_uri(self, uri: str) -> str:
-        if uri.startswith("http"):
-            return uri
-
-        return uri.replace("\\", "/")
-
     def has_etree(self, uri: str) -> bool:
-        return self.normalize_uri(uri) in self.__xml_etree_cache
+        return uri in self.__xml_etree_cache
 
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
-        return self.__xml_etree_cache[self.normalize_uri(uri)]
+        return self.__xml_etree_cache[uri]
+
+    def get_uri(self, xml_element: lxml.etree._Element) -> str:
+        """
+        :returns: the URI of the document that contains the element
+        """
+        return self.__uris[xml_element.getroottree().getroot()]
 
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
     def add_etree(self, uri: str, etree: lxml.etree._ElementTree) -> None:
-        self.__xml_etree_cache[self.normalize_uri(uri)] = etree
+        self.__xml_etree_cache[uri] = etree
+        self.__uris[etree.getroot()] = uri
diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index e59257c..4c8aa76 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -139,5 +139,7 @@ class ErrorCode(Enum):
         QNAME_NAMESPACE_NOT_IN_ELEMENT_SCOPE,
         QNAME_MISSING_NAMESPACE,
         UNAVAILABLE_REMOTE_FILE,
+        UNAVAILABLE_LOCAL_FILE,
+        INVALID_XML_FILE,
         *rest,
     ) = range(1000)
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index bfedb38..abad6fc 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -922,4 +922,18 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "The remote file with '{uri}' could not be found. The web page returned status code {status_code}.",
         "Check the URI of the remote file.",
     ),
+    ErrorCode.UNAVAILABLE_LOCAL_FILE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.MISC,
+        "101",
+        "The local file '{path}' could not be read.",
+        "Check the reference to the file and its permissions.",
+    ),
+    ErrorCode.INVALID_XML_FILE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.MISC,
+        "102",
+        "The file '{uri}' is not well-formed XML: {details}",
+        "Check the contents of the file.",
+    ),
 }
diff --git a/brel/parsers/utils/url_utils.py b/brel/parsers/utils/url_utils.py
index 5834092..b7d936f 100644
--- a/brel/parsers/utils/url_utils.py
+++ b/brel/parsers/utils/url_utils.py
@@ -1,4 +1,7 @@
-from urllib.parse import urlparse
+import os
+import re
+from urllib.parse import unquote, urljoin, urlparse, urlsplit, urlunsplit
+from urllib.request import url2pathname
 
 
 def is_valid_uri(uri: str) -> bool:
@@ -12,3 +15,45 @@ def is_valid_uri(uri: str) -> bool:
         return result.path != "" or result.scheme != "" and result.netloc != ""
     except Exception:
         return False
+
+
+def is_remote_uri(uri: str) -> bool:
+    """
+    :return: True if the string is the URI of a document on the web, False if it is the path of a local file.
+    """
+    return re.match(r"https?://", uri, re.IGNORECASE) is not None
+
+
+def normalize_document_uri(uri: str) -> str:
+    """
+    :param uri: the URI of a remote document or the path of a local file
+    :return: the spelling by which brel identifies the document
+    """
+    if not is_remote_uri(uri):
+        return os.path.abspath(uri)
+
+    parts = urlsplit(uri)
+    # Joining with the root of the server removes the dot segments of the path
+    path = urlsplit(urljoin("http://host/", re.sub("^/*", "/", parts.path))).path
+    return urlunsplit(
+        (parts.scheme.lower(), parts.netloc.lower(), path, parts.query, "")
+    )
+
+
+def join_document_uri(reference: str, base_uri: str) -> str:
+    """
+    Resolve a reference to a document.
+    :param reference: the reference, which is a URI reference. Its fragment is ignored.
+    :param base_uri: the URI or the local path to which the reference is relative
+    :return: the URI or the local path of the referenced document
+    """
+    reference = reference.strip().replace("\\", "/").split("#")[0]
+
+    if is_remote_uri(reference):
+        return reference
+    elif is_remote_uri(base_uri):
+        return urljoin(base_uri, reference)
+    elif reference.lower().startswith("file:"):
+        return url2pathname(urlsplit(reference).path)
+
+    return os.path.join(os.path.dirname(base_uri), unquote(reference))
diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..6fe17b1 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -42,10 +42,15 @@ def create_xml_service(
     file_service: FileService,
     xml_repository: XMLRepository,
     uri_rewrite_repository: URIRewriteRepository,
+    error_repository: ErrorRepository,
 ) -> XMLService:
     parser_resolver = create_xml_file_parser_resolver()
     return XMLService(
-        file_service, xml_repository, uri_rewrite_repository, parser_resolver
+        file_service,
+        xml_repository,
+        uri_rewrite_repository,
+        parser_resolver,
+        error_repository,
     )
 
 
diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..6ca2c00 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -10,8 +10,9 @@
 
 import time
 from io import BytesIO
-from typing import IO
-from requests import Session
+from typing import IO, Optional
+from lxml.etree import _Element  # type: ignore
+from requests import RequestException, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
@@ -37,7 +38,14 @@ class FileService:
     def has_file(self, uri: str) -> bool:
         return self.__file_repository.has_file(uri)
 
-    def download_and_add_file(self, uri: str) -> IO[bytes]:
+    def download_file(
+        self, uri: str, reference: Optional[_Element] = None
+    ) -> Optional[IO[bytes]]:
+        """
+        :param uri: the URI of the remote file
+        :param reference: the xml element that refers to the file, if any
+        :returns: the file. None if it is not available, which is reported as an error.
+        """
         headers = {}
 
         if "www.sec.gov" in uri:
@@ -48,21 +56,33 @@ class FileService:
             }
             time.sleep(0.1)
 
-        response = self.__session.get(uri, headers=headers, timeout=10)
+        status_code: Optional[int] = None
         try:
+            response = self.__session.get(uri, headers=headers, timeout=10)
+            status_code = response.status_code
             response.raise_for_status()
-            file = BytesIO(response.content)
-            self.add_file(uri, file)
-        except:
+            return BytesIO(response.content)
+        except RequestException:
             self.__error_repository.insert(
                 ErrorCode.UNAVAILABLE_REMOTE_FILE,
+                reference,
                 uri=uri,
-                status_code=str(response.status_code),
+                status_code=str(status_code),
             )
+            return None
 
-        return self.get_file(uri)
-
-    def copy_and_add_file(self, local_path: str) -> IO[bytes]:
-        with open(local_path, "rb") as file:
-            self.add_file(local_path, file)
-        return self.get_file(local_path)
+    def open_local_file(
+        self, local_path: str, reference: Optional[_Element] = None
+    ) -> Optional[IO[bytes]]:
+        """
+        :param local_path: the path of the local file
+        :param reference: the xml element that refers to the file, if any
+        :returns: the file as it is now. None if it is not available, which is reported as an error.
+        """
+        try:
+            return open(local_path, "rb")
+        except OSError:
+            self.__error_repository.insert(
+                ErrorCode.UNAVAILABLE_LOCAL_FILE, reference, path=local_path
+            )
+            return None
diff --git a/brel/services/xml/xml_file_parser_resolver.py b/brel/services/xml/xml_file_parser_resolver.py
index 4240e0c..c1bfaa3 100644
--- a/brel/services/xml/xml_file_parser_resolver.py
+++ b/brel/services/xml/xml_file_parser_resolver.py
@@ -18,6 +18,7 @@ class XMLFileParserResolver:
         xml_parser: Callable[[IO[bytes]], _ElementTree],
         xhtml_parser: Callable[[IO[bytes]], _ElementTree],
     ):
+        self.__default_parser = xml_parser
         self.__parsers: Dict[str, Callable[[IO[bytes]], _ElementTree]] = {
             ".xml": xml_parser,
             ".xsd": xml_parser,
@@ -30,4 +31,6 @@ class XMLFileParserResolver:
         for ext, parser in self.__parsers.items():
             if file_name.endswith(ext):
                 return parser
-        raise ValueError(f"No parser registered for: {file_name}")
+
+        # The URIs of documents do not need to have an extension
+        return self.__default_parser
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..6af5336 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,18 +8,35 @@
 ====================
 """
 
-import re
 from typing import List, Optional, Set
-import urllib.parse
-from lxml.etree import _ElementTree  # type: ignore
-import urllib
+from lxml.etree import XMLSyntaxError, _Element, _ElementTree  # type: ignore
 
+from brel.data.errors.error_repository import ErrorRepository
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
 from brel.data.xml.xml_repository import XMLRepository
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.errors.error_code import ErrorCode
+from brel.parsers.utils.lxml_utils import (
+    SPECIFICATION_NAMESPACES,
+    find_elements,
+    get_clark_notation_tag,
+    get_str_attribute,
+    get_str_attribute_optional,
+)
+from brel.parsers.utils.url_utils import (
+    is_remote_uri,
+    join_document_uri,
+    normalize_document_uri,
+)
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
+XS_NAMESPACE = "http://www.w3.org/2001/XMLSchema"
+XML_NAMESPACE = "http://www.w3.org/XML/1998/namespace"
+
+SCHEMA_REFERENCE_TAGS = [
+    f"{{{XS_NAMESPACE}}}{name}" for name in ("import", "include", "redefine")
+]
+
 
 class XMLService:
     def __init__(
@@ -28,81 +45,132 @@ class XMLService:
         xml_repository: XMLRepository,
         uri_rewrite_repository: URIRewriteRepository,
         parser_resolver: XMLFileParserResolver,
+        error_repository: ErrorRepository,
     ) -> None:
         self.__file_service = file_service
         self.__uri_rewrite_repository = uri_rewrite_repository
         self.__xml_repository = xml_repository
         self.__parser_resolver = parser_resolver
+        self.__error_repository = error_repository
+        self.__unavailable_uris: Set[str] = set()
         self.__available_filing_languages: Optional[List[str]] = None
 
-    def add_etree_recursive(self, uri: str, referencing_uri: str = ".") -> None:
+    def add_etree_recursive(self, uri: str) -> None:
         """
-        Recursively adds an XML file to the repository. the uri can be a local file path or a remote URL.
-        If the file is remote, it will be downloaded and added to the repository.
-        The method recursively adds all referenced files to the repository.
-        :param uri: The URI of the XML file to add.
-        :param referencing_uri: The URI of the file that references this XML file.
-        the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
+        Adds an XML file and all files that it refers to, directly or indirectly, to the repository.
+        The files are added once each, in the order in which they are referenced.
+        Files that are not available or not well-formed are reported as errors.
+        :param uri: The URI of the XML file to add. It can be a local file path or a remote URL.
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
+        pending: list[tuple[str, Optional[_Element]]] = [
+            (normalize_document_uri(uri), None)
+        ]
+
+        while pending:
+            uri, reference = pending.pop()
+            uri = self.__rewrite(uri)
+
+            if self.__xml_repository.has_etree(uri) or uri in self.__unavailable_uris:
+                continue
+
+            etree = self.__read_etree(uri, reference)
+            if etree is None:
+                self.__unavailable_uris.add(uri)
+                continue
+
+            self.__xml_repository.add_etree(uri, etree)
+            pending.extend(
+                (self.__resolve(element, reference), element)
+                for element, reference in reversed(self.__extract_references(etree))
             )
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
 
-        uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+    def __resolve(self, element: _Element, reference: str) -> str:
+        """
+        :param element: the xml element that contains the reference
+        :param reference: the reference to a document or to an element of a document
+        :returns: the URI of the document
+        """
+        base_uri = self.__xml_repository.get_uri(element)
+        if reference.strip().startswith("#"):
+            return base_uri
 
-        if self.__xml_repository.has_etree(uri):
-            return
+        for base_element in reversed([element, *element.iterancestors()]):
+            xml_base = base_element.get(f"{{{XML_NAMESPACE}}}base")
+            if xml_base:
+                base_uri = join_document_uri(xml_base, base_uri)
 
+        return normalize_document_uri(join_document_uri(reference, base_uri))
+
+    def __rewrite(self, uri: str) -> str:
+        return normalize_document_uri(self.__uri_rewrite_repository.rewrite(uri))
+
+    def __read_etree(
+        self, uri: str, reference: Optional[_Element]
+    ) -> Optional[_ElementTree]:
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
-            with self.__file_service.get_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+        if is_remote_uri(uri) and self.__file_service.has_file(uri):
+            try:
+                with self.__file_service.get_file(uri) as file:
+                    return parser(file)
+            except XMLSyntaxError:
+                # The file was not stored completely, so it is needed again.
+                pass
+
+        if is_remote_uri(uri):
+            opened_file = self.__file_service.download_file(uri, reference)
         else:
-            local_filepath = urllib.parse.urlparse(uri).path
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-
-        with self.__file_service.get_file(uri) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
-
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
-
-                if href_uri:
-                    reference_uris.add(href_uri)
-
-            schema_location = match.group(2)
-            if schema_location:
-                # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
-
-        return reference_uris
+            opened_file = self.__file_service.open_local_file(uri, reference)
+
+        if opened_file is None:
+            return None
+
+        with opened_file as file:
+            try:
+                etree = parser(file)
+            except XMLSyntaxError as error:
+                self.__error_repository.insert(
+                    ErrorCode.INVALID_XML_FILE, reference, uri=uri, details=str(error)
+                )
+                return None
+
+            if is_remote_uri(uri):
+                file.seek(0)
+                self.__file_service.add_file(uri, file)
+
+        return etree
+
+    def __extract_references(self, etree: _ElementTree) -> list[tuple[_Element, str]]:
+        """
+        :returns: the references to other documents with the elements that contain them, in document order
+        """
+        references: list[tuple[_Element, str]] = []
+
+        for element in find_elements(
+            etree, "//*[@xlink:href or @schemaLocation or @xsi:schemaLocation]"
+        ):
+            tag = get_clark_notation_tag(element)
+
+            href = get_str_attribute_optional(element, "xlink:href")
+            link_type = get_str_attribute_optional(element, "xlink:type")
+            if href is not None and (
+                link_type == "locator"
+                or link_type != "resource"
+                and tag.startswith(f"{{{SPECIFICATION_NAMESPACES['link']}}}")
+            ):
+                references.append((element, href))
+
+            schema_location = element.get("schemaLocation")
+            if schema_location is not None and tag in SCHEMA_REFERENCE_TAGS:
+                references.append((element, schema_location))
+
+            # pairs of namespaces and locations
+            schema_locations = get_str_attribute(element, "xsi:schemaLocation", "")
+            references.extend(
+                (element, location) for location in schema_locations.split()[1::2]
+            )
+
+        return references
 
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
-- 
2.43.0


From e5482ef77297576a85cab03c133c541e1db88520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:19 +0000
Subject: [PATCH 24/73] fix: keep complete remote documents only in the cache,
 as bytes and under unique names

---
 brel/data/file/pyfs_file_repository.py | 20 +++++++++----
 brel/parsers/utils/file_utils.py       | 40 ++++++--------------------
 brel/services/xml/xml_service.py       |  9 ++++--
 3 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..be8fff5 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -11,7 +11,10 @@ It downloads and caches files from the internet and the local file system.
 =================
 """
 
+import os
 import fs
+from fs.errors import FSError
+from uuid import uuid4
 from brel.data.file.file_repository import FileRepository
 from brel.parsers.utils.file_utils import uri_to_filename
 from typing import IO
@@ -23,15 +26,22 @@ class PyFsFileRepository(FileRepository):
         cache_location: str,
         clear_cache: bool = True,
     ) -> None:
-        self.fs = fs.open_fs(cache_location, create=True)
+        try:
+            os.makedirs(cache_location, exist_ok=True)
+            self.fs = fs.open_fs(cache_location, create=True)
+        except (OSError, FSError):
+            # Without a persistent location, the files are kept for this repository only
+            self.fs = fs.open_fs("mem://")
+
         if clear_cache:
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
-        )
+        # The file appears under its name once it is complete
+        file_name = uri_to_filename(uri)
+        temporary_name = f"{uuid4().hex}.tmp"
+        self.fs.writebytes(temporary_name, file.read())
+        self.fs.move(temporary_name, file_name, overwrite=True)
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..097caf0 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import hashlib
 import re
 
 
@@ -19,36 +20,13 @@ def uri_to_filename(uri: str) -> str:
     :returns str: the filename
     """
 
-    file_format_match = re.search(r"\.([a-zA-Z0-9]+)$", uri)
+    file_format_match = re.search(r"\.([a-zA-Z0-9]{1,10})$", uri)
     file_format = "." + file_format_match.group(1) if file_format_match else ""
 
-    if not uri.startswith("http"):
-        posix_uri = uri.replace("\\", "/")
-        if "/" in posix_uri:
-            return posix_uri.split("/")[-1]
-        else:
-            return posix_uri
-
-    uri = uri.replace("." + file_format, "")
-
-    if "http" in uri:
-        # remove http and https
-        uri = uri.replace("http://", "")
-        uri = uri.replace("https://", "")
-
-        # replace www. and things like .com, .org, etc.
-        uri = uri.replace("www.", "")
-        # the .com is between the first . and the first /
-        # uri = uri.split(".")[0] + uri.split("/")[1]
-    # replace all / with _
-    uri = uri.replace("/", "_")
-    # replace all : with _
-    uri = uri.replace(":", "_")
-    # replace all ? with _
-    uri = uri.replace("?", "_")
-    # replace all . with _
-    uri = uri.replace(".", "_")
-    # replace all \ with _
-    uri = uri.replace("\\", "_")
-
-    return uri + file_format
+    readable_name = re.sub(r"^https?://(www\.)?", "", uri)
+    readable_name = re.sub(r"[^a-zA-Z0-9-]", "_", readable_name)
+
+    # Different URIs can have the same readable name.
+    digest = hashlib.sha256(uri.encode("utf-8", "surrogatepass")).hexdigest()
+
+    return f"{readable_name[-100:]}_{digest}{file_format}"
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 6af5336..5178f82 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,6 +9,7 @@
 """
 
 from typing import List, Optional, Set
+from fs.errors import FSError
 from lxml.etree import XMLSyntaxError, _Element, _ElementTree  # type: ignore
 
 from brel.data.errors.error_repository import ErrorRepository
@@ -113,7 +114,7 @@ class XMLService:
             try:
                 with self.__file_service.get_file(uri) as file:
                     return parser(file)
-            except XMLSyntaxError:
+            except (XMLSyntaxError, OSError, FSError):
                 # The file was not stored completely, so it is needed again.
                 pass
 
@@ -136,7 +137,11 @@ class XMLService:
 
             if is_remote_uri(uri):
                 file.seek(0)
-                self.__file_service.add_file(uri, file)
+                try:
+                    self.__file_service.add_file(uri, file)
+                except (OSError, FSError):
+                    # The file is needed again the next time.
+                    pass
 
         return etree
 
-- 
2.43.0


From 7e5844128cfc8b2017e60d0b566da03f88e0eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 25/73] fix: apply the longest match of the catalog and report
 malformed catalogs

---
 brel/contexts/factory.py                         | 16 ++++++++++++----
 .../in_memory_uri_rewrite_repository.py          | 13 +++++++++++--
 brel/errors/error_factory_registry.py            |  2 +-
 brel/parsers/XML/xml_parse_catalog.py            |  9 +++------
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/brel/contexts/factory.py b/brel/contexts/factory.py
index 6f48db1..1927b6d 100644
--- a/brel/contexts/factory.py
+++ b/brel/contexts/factory.py
@@ -9,8 +9,9 @@
 
 from typing import Optional
 
-from lxml.etree import parse
+from lxml.etree import XMLSyntaxError, parse
 from brel.contexts.filing_context import FilingContext
+from brel.errors.error_code import ErrorCode
 from brel.parsers.XML.xml_parse_catalog import parse_catalog_xml
 
 CATALOG_FILEPATH = "META-INF/catalog.xml"
@@ -27,8 +28,8 @@ def get_catalog_filepath(filepaths: list[str]) -> Optional[str]:
     if not catalog_filepaths:
         return None
 
-    # Longer names mean deeper into the directory substructure, and we want it to be at surface-level
-    catalog_filepaths.sort(key=lambda name: len(name))
+    # More separators mean deeper into the directory substructure, and we want it to be at surface-level
+    catalog_filepaths.sort(key=lambda name: (name.count("/"), name))
     return catalog_filepaths[0]
 
 
@@ -42,7 +43,14 @@ def parse_catalog(filepaths: list[str], context: FilingContext) -> None:
         return
 
     filepaths.remove(catalog_filepath)
-    catalog_tree = parse(catalog_filepath)
+    try:
+        catalog_tree = parse(catalog_filepath)
+    except XMLSyntaxError as error:
+        context.get_error_repository().insert(
+            ErrorCode.INVALID_XML_FILE, uri=catalog_filepath, details=str(error)
+        )
+        return
+
     parse_catalog_xml(catalog_filepath, catalog_tree, context)
 
 
diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..37ae22f 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -8,7 +8,10 @@
 ====================
 """
 
+from urllib.parse import unquote
+
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
+from brel.parsers.utils.url_utils import is_remote_uri
 
 
 class InMemoryURIRewriteRepository(URIRewriteRepository):
@@ -22,8 +25,14 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
+        # The longest matching string takes precedence
+        for original_string in sorted(self.__catalog, key=len, reverse=True):
             if uri.startswith(original_string):
-                return replacement_string + uri[len(original_string) :]
+                replacement_string = self.__catalog[original_string]
+                remainder = uri[len(original_string) :]
+                if not is_remote_uri(replacement_string):
+                    remainder = unquote(remainder)
+
+                return replacement_string + remainder
 
         return uri
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index abad6fc..00bae24 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -817,7 +817,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
diff --git a/brel/parsers/XML/xml_parse_catalog.py b/brel/parsers/XML/xml_parse_catalog.py
index 1dab1ff..d9813f9 100644
--- a/brel/parsers/XML/xml_parse_catalog.py
+++ b/brel/parsers/XML/xml_parse_catalog.py
@@ -2,7 +2,7 @@ from lxml.etree import _ElementTree, _Element
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_str_attribute_optional
+from brel.parsers.utils.url_utils import join_document_uri
 
 OASIS_NAMESPACE = "urn:oasis:names:tc:entity:xmlns:xml:catalog"
 
@@ -15,7 +15,6 @@ def parse_catalog_xml(
 
     root_node = catalog_tree.getroot()
     original_strings = set()
-    catalog_filepath_pieces = catalog_filepath.split("/")
 
     if root_node.tag != f"{{{OASIS_NAMESPACE}}}catalog":
         error_repository.insert(ErrorCode.INVALID_CATALOG_ROOT_NODE, root_node)
@@ -40,9 +39,7 @@ def parse_catalog_xml(
 
         original_strings.add(original_string)
 
-        replacement_string_pieces = replacement_string.split("/")
-
-        complete_replacement_string = "/".join(
-            catalog_filepath_pieces[:-1] + replacement_string_pieces
+        complete_replacement_string = join_document_uri(
+            replacement_string, catalog_filepath
         )
         uri_rewrite_repository.upsert(original_string, complete_replacement_string)
-- 
2.43.0


From fc937321252cfa6501ccbc178c4c44fe7b3c1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:59 +0000
Subject: [PATCH 26/73] fix: every error has a message that can be created from
 what is known where it is reported

---
 brel/errors/error_factory_registry.py       | 16 ++++++++--------
 brel/parsers/XHMTL/elements/parse_hidden.py |  2 +-
 brel/parsers/XML/xml_context_parser.py      | 12 ++++++++++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 00bae24..939b03d 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -41,14 +41,14 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "004",
-        "End date is missing from the duration period.",
+        "Start date is missing from the duration period.",
         "Check that the `period` element has a `startDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_MISSING_END_DATE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "005",
-        "Start date is missing from the duration period.",
+        "End date is missing from the duration period.",
         "Check that the `period` element has an `endDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_START_AFTER_END: lambda: ErrorInstance(
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
@@ -219,11 +219,11 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
-        "Unit ID {unit_id} is not a valid.",
+        "Unit ID {unit_id} is not valid.",
         "Check the `unitRef` attribute of the corresponding fact.",
     ),
     # GENERAL: 000 - 099
@@ -289,7 +289,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.WARNING,
         Area.IXBRL_INSTANCE,
         "201",
-        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {children}.",
+        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {child_tag}.",
         "Check for a misspelling in the child element.",
     ),
     # RESOURCES: 300 - 399
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index de03875..8a07d15 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,5 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, child_tag=child_tag
                 )
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index 2db7b63..a32f5eb 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -20,7 +20,11 @@ from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.XML.characteristics import *
-from brel.parsers.utils.lxml_utils import get_child_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import (
+    get_child_elements,
+    get_clark_notation_tag,
+    get_str_attribute,
+)
 from brel.reportelements import *
 from brel.contexts.filing_context import FilingContext
 
@@ -97,6 +101,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=get_clark_notation_tag(xml_dimension),
+                )
 
     return fact_context
-- 
2.43.0


From f022890547d29795d822117c967a4f4938a08b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:12 +0000
Subject: [PATCH 27/73] fix: resolve locators and typed domains to the element
 that they refer to, not to any with the same id

---
 brel/data/fact/fact_repository.py             |  7 ++-
 brel/data/fact/in_memory_fact_repository.py   | 11 ++++-
 brel/data/xml/xml_repository.py               | 18 ++++++++
 brel/parsers/XHMTL/xhtml_parse_facts.py       |  2 +-
 .../XML/networks/xml_extended_link_parser.py  | 41 ++++++++++++++---
 brel/parsers/XML/xml_facts_parser.py          |  4 +-
 brel/parsers/XML/xml_report_element_parser.py |  9 ++--
 brel/services/xml/xml_service.py              | 44 +++++++++++++++++--
 8 files changed, 115 insertions(+), 21 deletions(-)

diff --git a/brel/data/fact/fact_repository.py b/brel/data/fact/fact_repository.py
index f4e4158..63e6edf 100644
--- a/brel/data/fact/fact_repository.py
+++ b/brel/data/fact/fact_repository.py
@@ -10,6 +10,7 @@
 
 from abc import ABC, abstractmethod
 from typing import Optional
+from lxml.etree import _Element
 from brel.brel_fact import Fact
 
 
@@ -31,5 +32,9 @@ class FactRepository(ABC):
         pass
 
     @abstractmethod
-    def upsert(self, fact: Fact) -> None:
+    def get_by_xml_element_optional(self, xml_element: _Element) -> Optional[Fact]:
+        pass
+
+    @abstractmethod
+    def upsert(self, fact: Fact, xml_element: Optional[_Element] = None) -> None:
         pass
diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 684ecf1..d7de9e3 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -9,6 +9,7 @@
 """
 
 from typing import Optional
+from lxml.etree import _Element
 from brel.data.fact.fact_repository import FactRepository
 from brel.brel_fact import Fact
 
@@ -16,6 +17,7 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
+        self.__facts_by_xml_element: dict[_Element, Fact] = {}
         self.__facts: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
@@ -33,14 +35,21 @@ class InMemoryFactRepository(FactRepository):
     def get_all(self):
         return list(self.__facts)
 
-    def upsert(self, fact: Fact) -> None:
+    def get_by_xml_element_optional(self, xml_element: _Element) -> Optional[Fact]:
+        return self.__facts_by_xml_element.get(xml_element)
+
+    def upsert(self, fact: Fact, xml_element: Optional[_Element] = None) -> None:
         """
         Add the fact. Facts that have an ID can also be looked up by it.
         Neither is an ID mandatory, nor is it unique across multiple instance documents.
         :param fact: The fact to add.
+        :param xml_element: The element that reports the fact.
         """
         self.__facts.append(fact)
 
+        if xml_element is not None:
+            self.__facts_by_xml_element[xml_element] = fact
+
         fact_id = fact.get_id()
         if fact_id is not None:
             self.__facts_by_id[fact_id] = fact
diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index e204007..3bbf0a7 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -11,6 +11,8 @@ The XMLSchemaManager class is responsible for downloading and caching XBRL taxon
 =================
 """
 
+from typing import Optional
+
 import lxml
 import lxml.etree
 from brel.parsers.utils.lxml_xpath_utils import add_xpath_functions
@@ -20,6 +22,7 @@ class XMLRepository:
     def __init__(self) -> None:
         self.__xml_etree_cache: dict[str, lxml.etree._ElementTree] = {}
         self.__uris: dict[lxml.etree._Element, str] = {}
+        self.__elements_by_id: dict[str, dict[str, lxml.etree._Element]] = {}
         add_xpath_functions()
 
     def has_etree(self, uri: str) -> bool:
@@ -40,3 +43,18 @@ class XMLRepository:
     def add_etree(self, uri: str, etree: lxml.etree._ElementTree) -> None:
         self.__xml_etree_cache[uri] = etree
         self.__uris[etree.getroot()] = uri
+
+    def get_element_by_id_optional(
+        self, uri: str, id: str
+    ) -> Optional[lxml.etree._Element]:
+        """
+        :returns: the first element of the document that has the id. None if there is not any.
+        """
+        if uri not in self.__elements_by_id:
+            elements_by_id: dict[str, lxml.etree._Element] = {}
+            for element in self.get_etree(uri).getroot().xpath("//*[@id]"):
+                elements_by_id.setdefault(element.get("id"), element)
+
+            self.__elements_by_id[uri] = elements_by_id
+
+        return self.__elements_by_id[uri].get(id)
diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 60de3c1..41d61d2 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -253,7 +253,7 @@ def parse_facts(
             )
 
         if fact is not None:
-            fact_repository.upsert(fact)
+            fact_repository.upsert(fact, fact_element)
 
 
 def parse_facts_xhtml(filing_context: FilingContext) -> XHTMLFootnoteNetworkElements:
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 5732560..2239b97 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -39,6 +39,8 @@ from brel.parsers.utils.lxml_utils import (
     get_clark_notation_tag,
     is_decimal_number,
 )
+from brel.qnames.qname import QName
+from brel.qnames.qname_utils import qname_from_str, to_clark_notation
 from brel.reportelements import *
 from brel.resource import *
 from brel.contexts.filing_context import FilingContext
@@ -114,6 +116,24 @@ class ExtendedLink(NamedTuple):
     relationships: list[Relationship]
 
 
+def get_declared_qname(
+    xml_element: lxml.etree._Element,  # type: ignore
+) -> Optional[QName]:
+    """
+    :returns: the name of the report element that the xml element declares. None if it does not declare any.
+    """
+    schema = xml_element.getparent()
+    name = get_str_attribute_optional(xml_element, "name")
+    if schema is None or name is None:
+        return None
+
+    target_namespace = get_str_attribute_optional(schema, "targetNamespace")
+    if target_namespace is None:
+        return None
+
+    return qname_from_str(to_clark_notation(target_namespace, name), xml_element)
+
+
 def get_object_from_reference(
     referenced_element: lxml.etree._Element,  # type: ignore
     filing_context: FilingContext,
@@ -129,17 +149,24 @@ def get_object_from_reference(
 
         href = get_str_attribute(referenced_element, "xlink:href", "")
 
-        elem_id = href.split("#")[-1]
+        # The ids of elements are only unique within one document
+        xml_target = filing_context.get_xml_service().find_referenced_element(
+            referenced_element, href
+        )
+
+        if xml_target is not None:
+            locator_target_element = fact_repository.get_by_xml_element_optional(
+                xml_target
+            )
+            qname = get_declared_qname(xml_target)
+            if qname is not None and report_element_repository.has_qname(qname):
+                locator_target_element = report_element_repository.get_by_qname(qname)
 
-        if report_element_repository.has_id(elem_id):
-            locator_target_element = report_element_repository.get_by_id(elem_id)
-        elif fact_repository.has_id(elem_id):
-            locator_target_element = fact_repository.get_by_id(elem_id)
-        else:
+        if locator_target_element is None:
             error_repository.insert(
                 ErrorCode.XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND,
                 referenced_element,
-                elem_id=elem_id,
+                elem_id=href.split("#")[-1],
             )
 
             return None
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index ec4c789..2168365 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -114,7 +114,9 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
+    fact_repository.upsert(
+        Fact(context, fact_value, fact_id, decimals, precision), fact_xml_element
+    )
 
 
 def parse_facts_xml(
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..d2ef7e6 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -89,13 +89,10 @@ def parse_report_element(
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
-                refschema = (
-                    xml_service.get_etree(ref_schema_name)
-                    if ref_schema_name and ref_schema_name != "."
-                    else current_etree
+                ref_schema_name, _, ref_id = ref_full.partition("#")
+                ref_xml = xml_service.find_referenced_element(
+                    report_element_xml, f"#{ref_id}" if ref_schema_name == "." else ref_full
                 )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
                 if ref_xml is None:
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 5178f82..6a45c28 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,7 +8,9 @@
 ====================
 """
 
+import re
 from typing import List, Optional, Set
+from urllib.parse import unquote
 from fs.errors import FSError
 from lxml.etree import XMLSyntaxError, _Element, _ElementTree  # type: ignore
 
@@ -19,6 +21,7 @@ from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.lxml_utils import (
     SPECIFICATION_NAMESPACES,
     find_elements,
+    get_child_elements,
     get_clark_notation_tag,
     get_str_attribute,
     get_str_attribute_optional,
@@ -64,13 +67,11 @@ class XMLService:
         :param uri: The URI of the XML file to add. It can be a local file path or a remote URL.
         """
         pending: list[tuple[str, Optional[_Element]]] = [
-            (normalize_document_uri(uri), None)
+            (self.__rewrite(normalize_document_uri(uri)), None)
         ]
 
         while pending:
             uri, reference = pending.pop()
-            uri = self.__rewrite(uri)
-
             if self.__xml_repository.has_etree(uri) or uri in self.__unavailable_uris:
                 continue
 
@@ -100,7 +101,9 @@ class XMLService:
             if xml_base:
                 base_uri = join_document_uri(xml_base, base_uri)
 
-        return normalize_document_uri(join_document_uri(reference, base_uri))
+        return self.__rewrite(
+            normalize_document_uri(join_document_uri(reference, base_uri))
+        )
 
     def __rewrite(self, uri: str) -> str:
         return normalize_document_uri(self.__uri_rewrite_repository.rewrite(uri))
@@ -177,6 +180,39 @@ class XMLService:
 
         return references
 
+    def find_referenced_element(
+        self, element: _Element, reference: str
+    ) -> Optional[_Element]:
+        """
+        :param element: the xml element that contains the reference
+        :param reference: the reference, which is the URI of a document and an id or an element scheme pointer
+        :returns: the element that is referred to. None if it does not exist.
+        """
+        uri = self.__resolve(element, reference)
+        _, _, fragment = reference.strip().partition("#")
+        if not self.__xml_repository.has_etree(uri):
+            return None
+
+        fragment = unquote(fragment)
+        pointer = re.fullmatch(r"element\(([^()/]*)((?:/[1-9][0-9]*)*)\)", fragment)
+        if pointer is None:
+            return self.__xml_repository.get_element_by_id_optional(uri, fragment)
+
+        id, child_sequence = pointer.groups()
+        positions = [int(position) for position in child_sequence.split("/")[1:]]
+        if id:
+            found = self.__xml_repository.get_element_by_id_optional(uri, id)
+        elif positions and positions.pop(0) == 1:
+            found = self.get_etree(uri).getroot()
+        else:
+            return None
+
+        for position in positions:
+            children = get_child_elements(found) if found is not None else []
+            found = children[position - 1] if position <= len(children) else None
+
+        return found
+
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
-- 
2.43.0


From eae38f92f265962567e5c0c45c949f4b6197da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:12 +0000
Subject: [PATCH 28/73] fix: list the files of a folder and the languages of a
 report in a fixed order

---
 brel/parsers/path_loaders/folder_path_loader.py |  2 +-
 brel/services/xml/xml_service.py                | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..b343e71 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -35,7 +35,7 @@ class FolderPathLoader(PathLoader):
 
         path_parts = path.split(splitting_char)
         files_and_folders = [
-            "/".join(path_parts + [dir_item]) for dir_item in os.listdir(path)
+            "/".join(path_parts + [dir_item]) for dir_item in sorted(os.listdir(path))
         ]
 
         files = [
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 6a45c28..d62cb41 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -221,18 +221,15 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            all_languages: dict[str, None] = {}
             for tree in self.get_all_etrees():
                 elements_with_lang = tree.findall(
                     "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
                 )
 
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
-                    for element_with_lang in elements_with_lang
-                )
-
-                all_languages = all_languages.union(tree_languages)
+                for element_with_lang in elements_with_lang:
+                    language = get_str_attribute(element_with_lang, "xml:lang")
+                    all_languages.setdefault(language)
 
             self.__available_filing_languages = list(all_languages)
 
-- 
2.43.0


From 984bfb0be9a052ef9165b38dacba6e15096f22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 29/73] fix: open zip files as the folders that they contain

---
 brel/brel_filing.py                          | 11 ++++---
 brel/parsers/path_loaders/path_loader.py     |  6 ++++
 brel/parsers/path_loaders/zip_path_loader.py | 31 ++++++++++++++++----
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..0445ef5 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -81,15 +81,18 @@ class Filing:
     @classmethod
     def open(cls, path: str) -> "Filing":
         path_loader_resolver = create_path_loader_resolver()
-        file_paths: list[str] = []
         try:
             path_loader = path_loader_resolver.get_path_loader(path)
-            file_paths = path_loader.load(path)
         except ValueError:
             raise ValueError(f"Path {path} is not a valid path")
 
-        parser = FilingParserFactory().create_parser(file_paths)
-        context = parser.parse()
+        try:
+            file_paths = path_loader.load(path)
+            parser = FilingParserFactory().create_parser(file_paths)
+            context = parser.parse()
+        finally:
+            path_loader.close()
+
         return cls(context)
 
     def __init__(self, context: FilingContext) -> None:
diff --git a/brel/parsers/path_loaders/path_loader.py b/brel/parsers/path_loaders/path_loader.py
index bbae554..888cf9d 100644
--- a/brel/parsers/path_loaders/path_loader.py
+++ b/brel/parsers/path_loaders/path_loader.py
@@ -28,3 +28,9 @@ class PathLoader(ABC):
         :return: A list of paths.
         """
         pass
+
+    def close(self) -> None:
+        """
+        Release what was needed for loading the paths. The paths should not be used anymore.
+        """
+        pass
diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..80c9aa9 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,17 +8,38 @@
 ====================
 """
 
+import os
+import tempfile
+import zipfile
+
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
 class ZipPathLoader(PathLoader):
+    def __init__(self) -> None:
+        self.__directories: list[tempfile.TemporaryDirectory[str]] = []
+
     def is_loader_for(self, path: str) -> bool:
-        return path.endswith(".zip")
+        return path.endswith(".zip") and os.path.isfile(path)
 
     def load(self, path: str) -> list[str]:
-        import zipfile
+        """
+        Extracts the zip file to a temporary folder and loads all files from it.
+
+        :param path: The path of the zip file.
+        :returns: A list of file paths in the temporary folder. It exists until the loader is closed.
+        """
+        directory = tempfile.TemporaryDirectory()
+        self.__directories.append(directory)
 
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            zip_ref.extractall(directory.name)
+
+        return FolderPathLoader().load(directory.name)
+
+    def close(self) -> None:
+        for directory in self.__directories:
+            directory.cleanup()
+
+        self.__directories.clear()
-- 
2.43.0


From 3f8c770ecce981280f30f1f4eaf8eb55f53347bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 30/73] fix: find expanded names, and names with several
 prefixes once

---
 brel/qnames/qname_search_params.py            |  11 +-
 .../report_element/report_element_service.py  | 120 +++++-------------
 2 files changed, 36 insertions(+), 95 deletions(-)

diff --git a/brel/qnames/qname_search_params.py b/brel/qnames/qname_search_params.py
index 53daa7c..be95f98 100644
--- a/brel/qnames/qname_search_params.py
+++ b/brel/qnames/qname_search_params.py
@@ -23,7 +23,7 @@ class QNameSearchParams:
         """
         Check if the given string is in Clark notation.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^{}]*)\}(?P<local_name>[^:{}]+)$"
         match = re.match(re_expression, clark_notation)
         return match is not None
 
@@ -32,17 +32,16 @@ class QNameSearchParams:
         """
         Create a QNameSearchParams object from a Clark notation string.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^{}]*)\}(?P<local_name>[^:{}]+)$"
         match = re.match(re_expression, clark_notation)
         if not match:
             raise ValueError(
-                f"Invalid Clark notation: {clark_notation}. Expected format: prefix:local_name"
+                f"Invalid Clark notation: {clark_notation}. Expected format: {{uri}}local_name"
             )
 
-        prefix = match.group("prefix")
+        uri = match.group("uri")
         local_name = match.group("local_name")
-        uri = None
-        return cls(local_name=local_name, uri=uri, prefix=prefix)
+        return cls(local_name=local_name, uri=uri, prefix=None)
 
     @staticmethod
     def is_prefix_local_name_notation(prefix_local_name: str) -> bool:
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..159c103 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -27,98 +27,40 @@ class ReportElementService:
     def get_fuzzy_typed[
         T: IReportElement
     ](self, search_params: QNameSearchParams, report_element_type: type[T],) -> list[T]:
-        uri_candidates: set[str] = set()
-        if search_params.uri:
-            uri_candidates.add(search_params.uri)
+        """
+        :param search_params: the local name and, if known, the namespace or a prefix of the names to find
+        :param report_element_type: the type of the report elements to find
+        :returns: the report elements of the type that have such a name, each once
+        """
+        return [
+            element
+            for element in self.get_fuzzy(search_params)
+            if isinstance(element, report_element_type)
+        ]
 
-        prefix_candidates: set[str] = set()
-        if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
-
-        if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
-                self.__namespace_repository.get_prefixes(search_params.uri)
-            )
-        elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
-                self.__namespace_repository.get_uris(search_params.prefix)
-            )
-
-        if uri_candidates or prefix_candidates:
-            qname_candidates = (
-                QName(
-                    uri,
-                    prefix,
-                    search_params.local_name,
-                )
-                for uri in uri_candidates
-                for prefix in prefix_candidates
-            )
-
-            matching_qnames = filter(
-                lambda qname: self.__report_element_repository.has_typed_qname(
-                    qname, report_element_type
-                ),
-                qname_candidates,
-            )
+    def get_fuzzy(self, search_params: QNameSearchParams) -> list[IReportElement]:
+        """
+        :param search_params: the local name and, if known, the namespace or a prefix of the names to find
+        :returns: the report elements that have such a name, each once
+        """
+        local_name = search_params.local_name
 
+        if search_params.uri is None and search_params.prefix is None:
             return [
-                self.__report_element_repository.get_typed_by_qname(
-                    qname, report_element_type
-                )
-                for qname in matching_qnames
+                element
+                for element in self.__report_element_repository.get_all()
+                if element.get_name().local_name == local_name
             ]
-        else:
-            return list(
-                filter(
-                    lambda qname: qname.get_name().local_name
-                    == search_params.local_name,
-                    self.__report_element_repository.get_all_typed(report_element_type),
-                )
-            )
 
-    def get_fuzzy(self, search_params: QNameSearchParams) -> list[IReportElement]:
-        # TODO schmidi replace with call to find_typed and make typechecker happy somehow
-        uri_candidates: set[str] = set()
-        if search_params.uri:
-            uri_candidates.add(search_params.uri)
-
-        prefix_candidates: set[str] = set()
-        if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
-
-        if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
-                self.__namespace_repository.get_prefixes(search_params.uri)
-            )
-        elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
-                self.__namespace_repository.get_uris(search_params.prefix)
-            )
-
-        if uri_candidates or prefix_candidates:
-            return list(
-                map(
-                    self.__report_element_repository.get_by_qname,
-                    filter(
-                        lambda qname: self.__report_element_repository.has_qname(qname),
-                        [
-                            QName(
-                                uri,
-                                prefix,
-                                search_params.local_name,
-                            )
-                            for uri in uri_candidates
-                            for prefix in prefix_candidates
-                        ],
-                    ),
-                )
-            )
+        prefix = search_params.prefix or ""
+        if search_params.uri is not None:
+            uri_candidates = [search_params.uri]
         else:
-            return list(
-                filter(
-                    lambda qname: qname.get_name().local_name
-                    == search_params.local_name,
-                    self.__report_element_repository.get_all(),
-                )
-            )
+            uri_candidates = sorted(self.__namespace_repository.get_uris(prefix))
+
+        qname_candidates = [QName(uri, prefix, local_name) for uri in uri_candidates]
+        return [
+            self.__report_element_repository.get_by_qname(qname)
+            for qname in qname_candidates
+            if self.__report_element_repository.has_qname(qname)
+        ]
-- 
2.43.0


From 5bcc67ca2dd1bb497eaaabc892030da1c73f740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:48 +0000
Subject: [PATCH 31/73] fix: footnotes end with their element, and report empty
 references

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 57c8e8d..e56ccea 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -75,7 +75,7 @@ def parse_footnote(
     relevant_content = extract_relevant_content_from_continuation_chain(
         [footnote_element] + continuation_chain
     )
-    content_text = etree.tostring(relevant_content).decode()
+    content_text = etree.tostring(relevant_content, with_tail=False).decode()
 
     title = get_str_attribute_optional(footnote_element, "title")
     return id, BrelFootnote(content_text, id, language, role, id, title)
@@ -106,7 +106,7 @@ def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
 ) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
-    if not fromRefs:
+    if not fromRefs or not fromRefs.strip():
         error_repository.insert(
             ErrorCode.IXBRL_RELATIONSHIP_WITHOUT_FROMREFS,
             relationship_element,
@@ -114,7 +114,7 @@ def parse_relationship_from_and_to_refs(
         fromRefs = ""
 
     toRefs = get_str_attribute_optional(relationship_element, "toRefs")
-    if not toRefs:
+    if not toRefs or not toRefs.strip():
         error_repository.insert(
             ErrorCode.IXBRL_RELATIONSHIP_WITHOUT_TOREFS,
             relationship_element,
-- 
2.43.0


From f9377a2d0ed548a49452d778fb459ed1dfbb3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:42 +0000
Subject: [PATCH 32/73] fix: read the booleans of inline facts in all their
 spellings

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 14 ++++++++------
 brel/parsers/XHMTL/elements/parse_non_numeric.py  | 12 ++++++++----
 brel/parsers/utils/lxml_utils.py                  | 14 ++++++++++++++
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 59cfe7f..633e1b3 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -9,6 +9,7 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_numerical_fact_value,
 )
 from brel.parsers.utils.lxml_utils import (
+    get_boolean_attribute_optional,
     get_child_elements,
     get_prefix_localname_tag,
     get_str_attribute_optional,
@@ -51,8 +52,7 @@ def validate_descendant_non_fraction_rules(
     if not parent_is_non_fraction:
         return
 
-    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
-    if xsi_nil == "true":
+    if get_boolean_attribute_optional(element, "xsi:nil"):
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
         )
@@ -221,21 +221,23 @@ def parse_non_fraction_fact_element(
             ErrorCode.IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION, fact_element
         )
 
-    if xsi_nil == "true" and (has_text or has_children):
+    is_nil = get_boolean_attribute_optional(fact_element, "xsi:nil")
+
+    if is_nil and (has_text or has_children):
         error_repository.insert(ErrorCode.IXBRL_TEXT_OR_CHILDREN_WITH_NIL, fact_element)
 
-    if (not xsi_nil or xsi_nil == "false") and not has_text and not has_children:
+    if not is_nil and not has_text and not has_children:
         error_repository.insert(
             ErrorCode.IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE,
             fact_element,
         )
 
         # Assume xsi_nil, since fact is missing.
-        xsi_nil = "true"
+        is_nil = True
 
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
-    if xsi_nil == "true":
+    if is_nil:
         fact_value = ""
     elif has_text:
         fact_value = process_non_fraction_value(
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index bb7ec93..d71f2af 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -14,7 +14,10 @@ from brel.parsers.XHMTL.elements.parse_continuation_chain import (
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_non_numerical_fact_value,
 )
-from brel.parsers.utils.lxml_utils import get_str_attribute_optional
+from brel.parsers.utils.lxml_utils import (
+    get_boolean_attribute_optional,
+    get_str_attribute_optional,
+)
 
 
 def convert_escaped_characters(text: str) -> str:
@@ -77,8 +80,9 @@ def parse_non_numeric_fact_element(
         taken_ids.add(id)
 
     escape = get_str_attribute_optional(fact_element, "escape")
+    is_escaped = get_boolean_attribute_optional(fact_element, "escape")
 
-    if escape and escape not in ["true", "false"]:
+    if escape and is_escaped is None:
         error_repository.insert(
             ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE,
             fact_element,
@@ -86,14 +90,14 @@ def parse_non_numeric_fact_element(
         )
 
         # Assume escaping, since the attribute is present
-        escape = "true"
+        is_escaped = True
 
     relevant_content = extract_relevant_content_from_continuation_chain(
         [fact_element] + continuation_chain
     )
 
     fact_value = None
-    if escape == "true":
+    if is_escaped:
         fact_value = escape_content(relevant_content)
     else:
         fact_value = extract_text_content(relevant_content)
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index fb4d4e3..def9a03 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -84,6 +84,20 @@ def get_str_attribute(
     return value
 
 
+def get_boolean_attribute_optional(
+    element: _Element, attribute: str | QName
+) -> bool | None:
+    """
+    Helper function for getting an attribute with the type xs:boolean from an element.
+    :param element: lxml.etree.Element to get the attribute from
+    :param attribute: str containing the name of the attribute
+    :return: bool containing the value of the attribute. None if it is missing or not a boolean.
+    """
+    value = get_str_attribute_optional(element, attribute)
+    literals = {"true": True, "1": True, "false": False, "0": False}
+    return literals.get(value.strip()) if value is not None else None
+
+
 def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str | None:
     """
     Helper function for getting a string attribute from an element. Returns None if the attribute is not found.
-- 
2.43.0


From f55b0d5b63e501f4a6c0ad1882453dc44bbe55ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:05 +0000
Subject: [PATCH 33/73] fix: read the uses of a role as names and its
 definition completely

---
 brel/parsers/XML/xml_component_parser.py | 25 ++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..199ecc9 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,17 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import (
+    SPECIFICATION_NAMESPACES,
+    find_element,
+    find_elements,
+    get_collapsed_text,
+    get_str_attribute,
+    get_text,
+)
+from brel.qnames.qname_utils import qname_from_str, to_clark_notation
+
+LINK_NAMESPACE = SPECIFICATION_NAMESPACES["link"]
 
 
 def parse_component_from_xml(
@@ -41,12 +51,15 @@ def parse_component_from_xml(
     role_uri = get_str_attribute(xml_element, "roleURI")
 
     info_element = find_element(xml_element, "link:definition")
-    info = (info_element.text or "") if info_element is not None else ""
+    info = (get_text(info_element) or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [
+        qname_from_str(get_collapsed_text(used_on) or "", used_on).clark_notation()
+        for used_on in find_elements(xml_element, "link:usedOn")
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "presentationLink") not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +68,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "calculationLink") not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +77,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "definitionLink") not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
-- 
2.43.0


From f5644242039a136e72ad86f17ef776fcd1f8abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:37 +0000
Subject: [PATCH 34/73] fix: report a role once, even if several schemas
 declare it

---
 brel/parsers/XML/xml_component_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 199ecc9..9a8785d 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -141,6 +141,8 @@ def parse_components_xml(
 ) -> None:
     xml_service = context.get_xml_service()
     component_repository: ComponentRepository = context.get_component_repository()
+    # Several schemas may declare the same role, as long as the declarations are the same
+    declared_role_uris: set[str] = set()
 
     for schema in xml_service.get_all_etrees():
         for roletype in find_elements(
@@ -148,4 +150,9 @@ def parse_components_xml(
             ".//link:roleType",
             namespaces={"link": "http://www.xbrl.org/2003/linkbase"},
         ):
+            role_uri = get_str_attribute(roletype, "roleURI")
+            if role_uri in declared_role_uris:
+                continue
+
+            declared_role_uris.add(role_uri)
             component_repository.upsert(parse_component_from_xml(context, roletype))
-- 
2.43.0


From 1164472b0709b17aaed8c522bc1a6ef5ed78b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 35/73] fix: check the balances of calculation networks with
 cycles

---
 brel/networks/calculation_network.py | 31 +++-------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..df0339a 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -46,26 +46,13 @@ class CalculationNetwork(INetwork):
         - if the two concepts have the same balance (credit/credit or debit/debit), then the child weight must be positive
         - if the two concepts have different balances (credit/debit or debit/credit), then the child weight must be negative
 
+        A network is not balance consistent if one of its concepts has no balance.
         :returns bool: True iff the network is balance consistent
         """
 
-        def is_subtree_balance_consistent(
-            node: CalculationNetworkNode,
-        ) -> bool:
-            """
-            Returns true if the subtree rooted at node is balance consistent.
-            Operates recursively.
-            Returns false if
-            - Any parent or child balance is None
-            - The parent and child balances are the same, but the child weight is negative
-            - The parent and child balances are different, but the child weight is positive
-            - Any child subtree is not balance consistent
-            Returns true otherwise
+        for node in self.get_all_nodes():
+            node = cast(CalculationNetworkNode, node)
 
-            :param node: the root of the subtree to check
-            :returns: True iff the subtree rooted at node is balance consistent
-            """
-            # get the balance of the parent
             parent_balance = node.get_concept().get_balance_type()
             if parent_balance is None:
                 return False
@@ -85,18 +72,6 @@ class CalculationNetwork(INetwork):
                     if child.get_weight() > 0:
                         return False
 
-                # check the balance of the children of the child
-                if not is_subtree_balance_consistent(child):
-                    return False
-
-            return True
-
-        # check the balance of the roots
-        for root in self.get_roots():
-            root = cast(CalculationNetworkNode, root)
-            if not is_subtree_balance_consistent(root):
-                return False
-
         return True
 
     # def is_aggregation_consistent(self, facts: list[Fact]) -> bool:
-- 
2.43.0


From 9ca64585cd1fd3cb166e5821098bd2f17a957ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 36/73] fix: check every total of a calculation network,
 exactly and against its own contributors

---
 brel/networks/calculation_network.py | 148 +++++++++------------------
 1 file changed, 49 insertions(+), 99 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index df0339a..2f87783 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -14,7 +14,9 @@ Calculation networks also contain helper functions for checking the consistency
 
 DEBUG = False
 
-from typing import Iterable, cast
+from decimal import Decimal, InvalidOperation
+from fractions import Fraction
+from typing import cast
 
 from brel import Fact, QName
 from brel.characteristics import Aspect, ICharacteristic
@@ -22,6 +24,18 @@ from brel.networks import CalculationNetworkNode, INetwork, INetworkNode
 from brel.reportelements import *
 
 
+def get_numeric_value(fact: Fact) -> Fraction | None:
+    """
+    :returns: the exact value of a fact. None if it is not a number, for example because the fact is nil.
+    """
+    try:
+        value = Decimal(fact.get_value_as_str().strip())
+    except InvalidOperation:
+        return None
+
+    return Fraction(value) if value.is_finite() else None
+
+
 class CalculationNetwork(INetwork):
     """
     The class for representing a calculation network.
@@ -81,118 +95,54 @@ class CalculationNetwork(INetwork):
 
         If there are multiple facts for a concept, but the facts have different dates, then aggregation consistency is checked for each date separately.
         This not only holds for the date aspect, but for all aspects of the fact.
+
+        A fact is not checked if the value of one of the children is missing, not a number or ambiguous.
         :param facts: the facts of the filing against which to check the aggregation consistency
         :returns bool: True iff the network is aggregation consistent
         """
 
-        def is_subnetwork_aggregation_consistent(
-            node: CalculationNetworkNode,
-        ) -> bool:
+        def get_values(concept: Concept, total: Fact) -> set[Fraction | None]:
             """
-            Returns true if the subtree rooted at node is aggregation consistent.
-            Operates recursively.
-            Returns false if
-            - the sum of all children values does not equal the parent value
-            - any child subtree is not aggregation consistent
-            Returns true otherwise
+            :returns: the different values of the facts for a concept, that have the same characteristics as the total except for the concept.
             """
-            # if the node is a leaf, it is aggregation consistent
-            # even though this case would be captured by the following code, it is more efficient to short circuit the trivial case without querying the facts
-            if node.is_leaf():
-                return True
-
-            concept = node.get_concept()
-            node_facts = list(
-                filter(
-                    lambda fact: fact.get_concept() == concept,
-                    facts,
+            return {
+                get_numeric_value(fact)
+                for fact in facts
+                if fact.get_concept() == concept
+                and set(fact.get_aspects()) == set(total.get_aspects())
+                and all(
+                    fact.get_characteristic(aspect) == total.get_characteristic(aspect)
+                    for aspect in total.get_aspects()
+                    if aspect != Aspect.CONCEPT
                 )
-            )
+            }
 
-            for node_fact in node_facts:
-                node_value = float(node_fact)
+        for node in self.get_all_nodes():
+            if node.is_leaf():
+                continue
 
-                if DEBUG:  # pragma: no cover
-                    print(f"{node_fact._get_id()}: {node_value} = ", end=" ")
+            concept = cast(CalculationNetworkNode, node).get_concept()
+            for total in filter(lambda fact: fact.get_concept() == concept, facts):
+                total_value = get_numeric_value(total)
 
-                # get the sum of the children values
-                children_sum: float = 0
+                children_sum: Fraction | None = Fraction(0)
                 for child in node.get_children():
                     child = cast(CalculationNetworkNode, child)
-                    child_concept = child.get_concept()
-
-                    # child facts are all facts with the same characteristics as the node fact, except for the concept
-                    child_facts: Iterable[Fact] = facts
-                    for node_aspect in node_fact.get_aspects():
-                        # if the aspect is the concept, then get all fact with the child_concept as the concept characteristic
-                        if node_aspect == Aspect.CONCEPT:
-                            child_facts = list(
-                                filter(
-                                    lambda fact: fact.get_concept() == child_concept,
-                                    child_facts,
-                                )
-                            )
-                        else:
-                            # otherwise, get all facts with the same characteristic as the node fact
-                            node_characteristic = node_fact.get_characteristic(
-                                node_aspect
-                            )
-                            child_facts = list(
-                                filter(
-                                    lambda fact: fact.get_characteristic(node_aspect)
-                                    == node_characteristic,
-                                    child_facts,
-                                )
-                            )
-
-                    # there should only be one child fact left
-                    all_child_facts = list(child_facts)
-                    parent_characteristics = {
-                        aspect.get_name(): str(node_fact.get_characteristic(aspect))
-                        for aspect in node_fact.get_aspects()
-                        if aspect != Aspect.CONCEPT
-                    }
-
-                    if len(all_child_facts) == 0:
-                        raise ValueError(
-                            f"Could not find a fact for concept {child_concept} with characteristics {parent_characteristics}"
-                        )
-                    elif len(all_child_facts) > 1:
-                        raise ValueError(
-                            f"Found more than one fact for concept {child_concept} with characteristics {parent_characteristics}"
-                        )
-
-                    child_fact = all_child_facts[0]
-
-                    children_sum += float(child_fact) * child.get_weight()
-
-                    if DEBUG:  # pragma: no cover
-                        print(
-                            f"+ {child_fact._get_id()}: {float(child_fact)} * {child.get_weight()}",
-                            end=" ",
-                        )
-
-                if DEBUG:  # pragma: no cover
-                    print()
-                    print(
-                        f"node concept: {concept}, node value: {node_value}, children sum: {children_sum}"
-                    )
-
-                if node_value != children_sum:
-                    return False
+                    values = get_values(child.get_concept(), total)
+                    value = values.pop() if len(values) == 1 else None
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+                    if value is None:
+                        # The total cannot be checked without the value of every child
+                        children_sum = None
+                        break
 
-            return True
+                    # str gives the weight as it was declared. The float itself is only close to it.
+                    children_sum += value * Fraction(str(child.get_weight()))
 
-        # check the roots
-        for root in self.get_roots():
-            root = cast(CalculationNetworkNode, root)
-            if not is_subnetwork_aggregation_consistent(root):
-                return False
+                if total_value is None or children_sum is None:
+                    continue
+
+                if total_value != children_sum:
+                    return False
 
         return True
-- 
2.43.0


From 46d8f9741aa15a1c7339c187ecd2a676246fb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:41 +0000
Subject: [PATCH 37/73] fix: tell the report's languages from the system's
 language in the output options

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 0445ef5..04ed430 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -570,8 +570,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From 01026a3bab981fa45d4a7b4f256b021a478c67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 38/73] fix: show a table that may not mix languages in the
 first language that fits

---
 brel/brel_filing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 04ed430..06e3f18 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -519,14 +519,16 @@ class Filing:
                 d = element.convert_to_dict(languages_list, translation_service)
                 data.append(d)
         else:
+            # use the first language in which all elements can be shown
             for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    break
+                except (KeyError, ValueError):
+                    continue
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From d78df6918e8cbaa584a28234800759330921f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:16 +0000
Subject: [PATCH 39/73] fix: keep the defaults of library parameters that are
 not set

---
 brel/config/brel_config.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..b679367 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -29,7 +29,18 @@ class BrelConfig:
 
     @classmethod
     def set_library_output_parameters(cls, **kwargs: Unpack[OutputParams]):
-        cls.output_params = kwargs
+        # parameters that are not given keep their default values
+        cls.output_params = OutputParams(
+            {
+                "languages": [],
+                "match_locale": True,
+                "allow_mixed": True,
+                "allow_default": True,
+                "allow_system_language": True,
+                "allow_report_language": True,
+                **kwargs,
+            }
+        )
 
     @classmethod
     def get_boolean_output_parameter_by_name(
-- 
2.43.0


From fbb17f44d3ac44a3cfb16d901097ba6dfd53887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:18 +0000
Subject: [PATCH 40/73] fix: spell the language of the system like the other
 languages

---
 brel/config/brel_config.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index b679367..f2b11ba 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -50,8 +50,14 @@ class BrelConfig:
 
     @classmethod
     def get_system_language(cls) -> Optional[str]:
-        locale, _ = getdefaultlocale()
-        return locale
+        try:
+            locale, _ = getdefaultlocale()
+        except ValueError:
+            # the locale of the system is not known
+            return None
+
+        # languages are separated from regions as in xml:lang
+        return locale.replace("_", "-") if locale else None
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-- 
2.43.0


From cd44f8972050ee1c995c17f910c5a1fec9fcf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:20 +0000
Subject: [PATCH 41/73] fix: use the languages of the root elements of
 documents

---
 brel/services/xml/xml_service.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index d62cb41..117a647 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -223,9 +223,7 @@ class XMLService:
         if self.__available_filing_languages is None:
             all_languages: dict[str, None] = {}
             for tree in self.get_all_etrees():
-                elements_with_lang = tree.findall(
-                    "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
-                )
+                elements_with_lang = tree.xpath("//*[@xml:lang]")
 
                 for element_with_lang in elements_with_lang:
                     language = get_str_attribute(element_with_lang, "xml:lang")
-- 
2.43.0


From eb65dacbb85933b717085cd841169cf90a9dc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:22 +0000
Subject: [PATCH 42/73] fix: find the translations from every working directory

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index f2b11ba..52b6014 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+from importlib.resources import files
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -61,4 +62,4 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return str(files("brel.config").joinpath("translations.csv"))
-- 
2.43.0


From 2a898da041c4077436d9a79b8cc9f415920cfaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 43/73] fix: recognise items by their substitution groups

---
 .../parsers/XML/xml_report_element_factory.py | 21 ++++--
 brel/parsers/XML/xml_report_element_parser.py | 69 ++++++++++++++++++-
 2 files changed, 82 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..4dbacac 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -20,6 +20,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.reportelements import *
 from brel.resource import BrelLabel
 
+# The items of the XBRL specifications that report elements substitute
+ITEM = QName("http://www.xbrl.org/2003/instance", "xbrli", "item")
+HYPERCUBE_ITEM = QName("http://xbrl.org/2005/xbrldt", "xbrldt", "hypercubeItem")
+DIMENSION_ITEM = QName("http://xbrl.org/2005/xbrldt", "xbrldt", "dimensionItem")
+
 
 class XMLReportElementFactory:
     @staticmethod
@@ -28,21 +33,27 @@ class XMLReportElementFactory:
         report_element_name: QName,
         labels: list[BrelLabel],
         error_repository: ErrorRepository,
+        item_name: QName | None,
     ) -> IReportElement | None:
         """
         Creates a report element from an lxml.etree._Element.
         The kind of report element created depends on the structure of the lxml.etree._Element.
         :param xml_element: lxml.etree._Element. The lxml.etree._Element to create the report element from.
+        :param item_name: QName|None. The name of the item of the XBRL specifications that the element substitutes. None if the element is not an item.
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
         is_abstract = xml_element.get("abstract", "false") == "true"
 
-        is_item = "item" in xml_element.get("substitutionGroup", "")
-        is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
-        is_dimension_item = "dimensionItem" in xml_element.get("substitutionGroup", "")
-        is_domain_item_type = "domainItemType" in xml_element.get("type", "")
-        is_item = "item" in xml_element.get("substitutionGroup", "")
+        if item_name is None:
+            return None
+
+        is_item = item_name == ITEM
+        is_hypercube_item = item_name == HYPERCUBE_ITEM
+        is_dimension_item = item_name == DIMENSION_ITEM
+        is_domain_item_type = (
+            xml_element.get("type", "").strip().split(":")[-1] == "domainItemType"
+        )
 
         is_line_items = "LineItems" in xml_element.get("name", "")
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index d2ef7e6..ee0fbc1 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -11,17 +11,25 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
+from typing import Optional
+
 import lxml.etree
 
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
-from brel.parsers.XML.xml_report_element_factory import XMLReportElementFactory
+from brel.parsers.XML.xml_report_element_factory import (
+    DIMENSION_ITEM,
+    HYPERCUBE_ITEM,
+    ITEM,
+    XMLReportElementFactory,
+)
 from brel.parsers.utils.lxml_utils import (
     find_elements,
     get_str_attribute,
     get_str_attribute_optional,
     has_str_attribute,
 )
+from brel.qnames.qname import QName
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_clark_notation,
@@ -41,6 +49,8 @@ def parse_report_elements_xml(
     xml_service = context.get_xml_service()
     report_element_repository = context.get_report_element_repository()
 
+    substitution_groups = get_substitution_groups(xml_service)
+
     for etree in xml_service.get_all_etrees():
         if not has_str_attribute(etree.getroot(), "targetNamespace"):
             continue
@@ -49,7 +59,7 @@ def parse_report_elements_xml(
 
         re_xmls = find_elements(
             etree,
-            ".//xs:element[@name]",
+            "./xs:element[@name]",
             namespaces={"xs": "http://www.w3.org/2001/XMLSchema"},
         )
         for re_xml in re_xmls:
@@ -60,7 +70,55 @@ def parse_report_elements_xml(
                 report_element_xml=re_xml,
                 target_namespace_url=target_namespace_url,
                 error_repository=error_repository,
+                substitution_groups=substitution_groups,
+            )
+
+
+def get_substitution_groups(xml_service: XMLService) -> dict[QName, QName]:
+    """
+    :param xml_service: the service that has all schemas of the report
+    :returns: the name of the head of the substitution group of each element that is declared with one
+    """
+    substitution_groups: dict[QName, QName] = {}
+    for etree in xml_service.get_all_etrees():
+        schema = etree.getroot()
+        for element in find_elements(
+            schema,
+            "./xs:element[@name][@substitutionGroup]",
+            namespaces={"xs": "http://www.w3.org/2001/XMLSchema"},
+        ):
+            name = QName(
+                schema.get("targetNamespace", ""), "", get_str_attribute(element, "name")
             )
+            prefix, _, local_name = (
+                get_str_attribute(element, "substitutionGroup").strip().rpartition(":")
+            )
+            substitution_groups[name] = QName(
+                element.nsmap.get(prefix or None, ""), prefix, local_name
+            )
+
+    return substitution_groups
+
+
+def get_item_name(
+    name: QName, substitution_groups: dict[QName, QName]
+) -> Optional[QName]:
+    """
+    :param name: the name of an element
+    :param substitution_groups: the head of the substitution group of each element
+    :returns: the name of the item of the XBRL specifications that the element substitutes, directly or indirectly.
+    None if the element is not an item.
+    """
+    visited: set[QName] = set()
+    head = substitution_groups.get(name)
+    while head is not None and head not in visited:
+        if head in (ITEM, HYPERCUBE_ITEM, DIMENSION_ITEM):
+            return head
+
+        visited.add(head)
+        head = substitution_groups.get(head)
+
+    return None
 
 
 def parse_report_element(
@@ -70,13 +128,18 @@ def parse_report_element(
     report_element_xml: lxml.etree._Element,  # type: ignore
     target_namespace_url: str,
     error_repository: ErrorRepository,
+    substitution_groups: dict[QName, QName],
 ):
     qname_tag = get_str_attribute(report_element_xml, "name")
     qname = qname_from_str(
         to_clark_notation(target_namespace_url, qname_tag), report_element_xml
     )
     report_element = XMLReportElementFactory.create(
-        report_element_xml, qname, [], error_repository
+        report_element_xml,
+        qname,
+        [],
+        error_repository,
+        get_item_name(qname, substitution_groups),
     )
     if report_element and not report_element_repository.has_qname(qname):
         report_element_repository.upsert(report_element)
-- 
2.43.0


From e94ad8d91ef08a64ffb58df48318aa6b9c9918d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 44/73] fix: read the booleans of element declarations in all
 their spellings

---
 brel/parsers/XML/xml_report_element_factory.py |  3 ++-
 brel/reportelements/concept.py                 | 11 +++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4dbacac..108c837 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -17,6 +17,7 @@ import lxml.etree
 
 from brel import QName
 from brel.data.errors.error_repository import ErrorRepository
+from brel.parsers.utils.lxml_utils import get_boolean_attribute_optional
 from brel.reportelements import *
 from brel.resource import BrelLabel
 
@@ -43,7 +44,7 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        is_abstract = get_boolean_attribute_optional(xml_element, "abstract") or False
 
         if item_name is None:
             return None
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..8395040 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -19,6 +19,7 @@ import lxml.etree
 from brel import QName
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
+from brel.parsers.utils.lxml_utils import get_boolean_attribute_optional
 from brel.reportelements import IReportElement
 from brel.resource import BrelLabel
 from brel.services.translation.translation_service import TranslationService
@@ -314,9 +315,9 @@ class Concept(IReportElement):
         # get if the concept is nillable
         xml_nillable = xml_element.get("nillable", None)
         # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
-        # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
-        possible_nillable_values = ["true", "false", None]
-        if xml_nillable not in possible_nillable_values:
+        # It is optional and defaults to false.
+        nillable = get_boolean_attribute_optional(xml_element, "nillable")
+        if xml_nillable is not None and nillable is None:
             error_repository.insert(
                 ErrorCode.INVALID_CONCEPT_NILLABLE_VALUE,
                 xml_element,
@@ -325,8 +326,6 @@ class Concept(IReportElement):
             )
 
             return None
-        else:
-            nillable = xml_nillable == "true"
 
         # get the data type of the concept
         data_type = xml_element.get("type", None)
@@ -345,7 +344,7 @@ class Concept(IReportElement):
             labels,
             period_type,
             balance_type,
-            nillable,
+            bool(nillable),
             data_type,
         )
 
-- 
2.43.0


From cd95b8c40d961e0347b77fe0e96ea57e57d376a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:39 +0000
Subject: [PATCH 45/73] fix: open reports with typed domains of anonymous types

---
 brel/parsers/XML/xml_report_element_parser.py | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index ee0fbc1..69395b7 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -164,6 +164,26 @@ def parse_report_element(
                         ref_schema_name=ref_schema_name,
                     )
                     return
-                ref_type = get_str_attribute(ref_xml, "type")
-                ref_type_qname = qname_from_str(ref_type, ref_xml)
-                report_element.make_typed(ref_type_qname)
+                report_element.make_typed(get_domain_type(ref_xml))
+
+
+def get_domain_type(domain_xml: lxml.etree._Element) -> QName:  # type: ignore
+    """
+    :param domain_xml: the declaration of the domain of a typed dimension
+    :returns: the name of the type of the domain. For anonymous types, it is the name of the type that they restrict
+    or, if there is none, xs:anyType.
+    """
+    domain_type = get_str_attribute_optional(domain_xml, "type")
+    if domain_type is None:
+        restrictions = find_elements(
+            domain_xml,
+            "./xs:simpleType/xs:restriction[@base]",
+            namespaces={"xs": "http://www.w3.org/2001/XMLSchema"},
+        )
+        if not restrictions:
+            return QName("http://www.w3.org/2001/XMLSchema", "xs", "anyType")
+
+        domain_xml = restrictions[0]
+        domain_type = get_str_attribute(domain_xml, "base")
+
+    return qname_from_str(domain_type, domain_xml)
-- 
2.43.0


From c2881ffda2440b2dd05cece4ec26520a60be9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:41 +0000
Subject: [PATCH 46/73] fix: recognise typed dimensions with any prefix

---
 brel/parsers/XML/xml_report_element_parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 69395b7..49f788e 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -33,7 +33,6 @@ from brel.qnames.qname import QName
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_clark_notation,
-    to_namespace_localname_notation,
 )
 from brel.reportelements import Dimension
 from brel.services.xml.xml_service import XMLService
@@ -145,9 +144,8 @@ def parse_report_element(
         report_element_repository.upsert(report_element)
 
         if isinstance(report_element, Dimension):
-            typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
-                report_element_xml,
+            typed_domain_ref = QName(
+                "http://xbrl.org/2005/xbrldt", "xbrldt", "typedDomainRef"
             )
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
-- 
2.43.0


From 3ae7e5b42032412dafe2db02357609fb275591ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:40 +0000
Subject: [PATCH 47/73] fix: report dates of periods that are not complete ISO
 dates

---
 brel/characteristics/period_characteristic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..b17b75b 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -17,6 +17,7 @@ A duration consists of two `datetime.date` instances, a start date and an end da
 """
 
 import datetime
+import re
 from typing import List, Optional
 
 import dateutil.parser
@@ -121,7 +122,13 @@ class PeriodCharacteristic(ICharacteristic):
         :param date: the string to check
         :returns bool: True if the string is a valid date, False otherwise
         """
-        if not date:
+        # the lexical space of xs:date and xs:dateTime. dateutil also accepts
+        # incomplete dates, whose missing parts it takes from the current date
+        if not date or not re.fullmatch(
+            r"\d{4,}-\d{2}-\d{2}(T\d{2}:\d{2}:\d{2}(\.\d+)?)?(Z|[+-]\d{2}:\d{2})?",
+            date,
+            re.ASCII,
+        ):
             return False
 
         try:
-- 
2.43.0


From 864a0499417b64852e405221dbff84a94493c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 48/73] fix: report empty entity identifiers

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index ecee172..ab72876 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -51,8 +51,10 @@ def parse_entity_from_xml(
 
     entity_id = get_collapsed_text(identifier_element)
 
-    if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+    if not entity_id:
+        error_repository.insert(
+            ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, identifier_element
+        )
         return None
 
     # the same identifier stands for different entities in different schemes
-- 
2.43.0


From 6826bd1283b8280ff3cce810795bc1795133aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:44 +0000
Subject: [PATCH 49/73] fix: report dimensions without a dimension attribute

---
 .../parsers/XML/characteristics/xml_parse_explicit_dimension.py | 2 +-
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index 0ec84b5..733e897 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -46,7 +46,7 @@ def parse_explicit_dimension_from_xml(
     aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
-    aspect_id = get_str_attribute(xml_element, "dimension")
+    aspect_id = get_str_attribute(xml_element, "dimension", default="")
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 02d684d..0cde5cb 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -62,7 +62,7 @@ def parse_typed_dimension_from_xml(
     characteristic_repository = filing_context.get_characteristic_repository()
     error_repository = filing_context.get_error_repository()
 
-    dimension_axis = get_str_attribute(xml_element, "dimension")
+    dimension_axis = get_str_attribute(xml_element, "dimension", default="")
 
     dimension_qname = qname_from_str(dimension_axis, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
-- 
2.43.0


From 7697913c71584e5c80ad98b9db59061f8929c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:16 +0000
Subject: [PATCH 50/73] fix: do not create units from malformed unit elements

---
 .../XML/characteristics/xml_parse_unit.py     | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 9001515..57b92c9 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -34,10 +34,19 @@ def parse_unit_measure_from_xml(
 ) -> Optional[QName]:
     child_text = get_collapsed_text(xml_element)
     error_repository = filing_context.get_error_repository()
-    if child_text is None:
+    if not child_text:
         error_repository.insert(ErrorCode.XML_MISSING_UNIT_MEASURE, xml_element)
         return None
     else:
+        prefix = child_text.rpartition(":")[0]
+        if prefix and prefix not in xml_element.nsmap:
+            error_repository.insert(
+                ErrorCode.QNAME_NAMESPACE_NOT_IN_ELEMENT_SCOPE,
+                xml_element,
+                namespace=prefix,
+            )
+            return None
+
         qname = qname_from_str(child_text, xml_element)
         return qname
 
@@ -76,6 +85,7 @@ def parse_unit_from_xml(
             id=unit_id,
             child_count=str(len(children)),
         )
+        return None
     else:
         child = children[0]
         child_tag = child.tag
@@ -96,6 +106,7 @@ def parse_unit_from_xml(
                     id=unit_id,
                     child_count=str(len(num_and_denom)),
                 )
+                return None
 
             for num_or_denom in num_and_denom:
                 num_or_denom_tag = num_or_denom.tag
@@ -110,8 +121,16 @@ def parse_unit_from_xml(
                         id=unit_id,
                         child_tag=num_or_denom_tag,
                     )
+                    return None
+
+                measure_children = get_child_elements(num_or_denom)
+                if not measure_children:
+                    error_repository.insert(
+                        ErrorCode.XML_MISSING_UNIT_MEASURE, num_or_denom
+                    )
+                    return None
 
-                measure_child = get_child_elements(num_or_denom)[0]
+                measure_child = measure_children[0]
                 child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
 
                 if not child_qname:
@@ -129,6 +148,7 @@ def parse_unit_from_xml(
                     id=unit_id,
                     tag=num_and_denom[0].tag,
                 )
+                return None
         else:
             error_repository.insert(
                 ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN,
@@ -136,6 +156,7 @@ def parse_unit_from_xml(
                 id=unit_id,
                 child_tag=child_tag,
             )
+            return None
 
     # create the unit characteristic, add it to the cache and return it
     unit_characteristic = UnitCharacteristic(unit_id, numerators, denominators)
-- 
2.43.0


From 50816d91c24ba029f822456631383b97925610ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:18 +0000
Subject: [PATCH 51/73] fix: accept any text in contextRef and unitRef

---
 brel/parsers/XML/xml_facts_parser.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 2168365..1c04de6 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -34,6 +34,23 @@ from brel.parsers.utils.lxml_utils import (
 )
 
 
+def find_element_by_id(
+    xbrl_instance: lxml.etree._ElementTree,  # type: ignore
+    tag: str,
+    element_id: str,
+) -> Optional[lxml.etree._Element]:  # type: ignore
+    """
+    Find a context or a unit of an instance.
+    The id comes from the instance and may contain any character, so it cannot be part of a path expression.
+    :returns: The child of the root with the tag and the id. None if there is no such element.
+    """
+    for element in xbrl_instance.iterfind(f"{{*}}{tag}"):
+        if element.get("id") == element_id:
+            return element
+
+    return None
+
+
 def parse_decimals_or_precision_xml(
     fact_xml_element: lxml.etree._Element,  # type: ignore
     attribute: str,
@@ -167,8 +184,8 @@ def parse_facts_xml(
             # ======== PARSE THE UNIT ========
             unit_id = xml_fact.get("unitRef")
 
-            if unit_id:
-                unit_xml = xbrl_instance.find(f"{{*}}unit[@id='{unit_id}']")
+            if unit_id is not None:
+                unit_xml = find_element_by_id(xbrl_instance, "unit", unit_id)
 
                 if unit_xml is None:
                     error_repository.insert(
@@ -191,9 +208,7 @@ def parse_facts_xml(
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
 
-            xml_context = xbrl_instance.find(
-                f"{{*}}context[@id='{context_id}']", namespaces=None
-            )
+            xml_context = find_element_by_id(xbrl_instance, "context", context_id)
 
             if xml_context is None:
                 error_repository.insert(
-- 
2.43.0


From cd94f116559348550edc207f1b98965b79c8b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:21 +0000
Subject: [PATCH 52/73] fix: skip inline contexts and units without id

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 41d61d2..ab1b2c1 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -92,7 +92,7 @@ def parse_contexts(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_CONTEXT_WITHOUT_ID, context_element)
-            id = str(id)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
@@ -122,6 +122,7 @@ def parse_units(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_UNIT_WITHOUT_ID, unit_element)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
-- 
2.43.0


From 0dc79ff68f5182ce349bdb02c56485084c7ded37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 53/73] fix: report empty scale attributes

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 633e1b3..de4d154 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -137,7 +137,7 @@ def process_non_fraction_value(
     else:
         format = normalize_format(format, fact_element)
 
-    if not scale:
+    if scale is None:
         scale = "0"
 
     parsed_value = parse_numerical_fact_value(
-- 
2.43.0


From 250ee2acb92c2469cd2f7a3c78cd2411ab30c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:54 +0000
Subject: [PATCH 54/73] fix: report calculation arcs without weight

---
 brel/parsers/XML/networks/xml_extended_link_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 2239b97..1c4c9d4 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -263,6 +263,14 @@ def validate_arc_numbers(
     """
     Report attributes of an arc that should be numbers, but are not.
     """
+    if (
+        lxml.etree.QName(arc_element).localname == "calculationArc"
+        and get_str_attribute_optional(arc_element, "weight") is None
+    ):
+        context.get_error_repository().insert(
+            ErrorCode.LINK_ELEMENT_MISSING_ATTRIBUTE, arc_element, attribute="weight"
+        )
+
     for attribute in ("order", "weight"):
         value = get_str_attribute_optional(arc_element, attribute)
         if value is not None and not is_decimal_number(value):
-- 
2.43.0


From 05356fed49260dc828349dc6fe0f2df4ff9287cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 55/73] fix: report facts without context

---
 brel/errors/error_code.py             |  1 +
 brel/errors/error_factory_registry.py |  7 +++++++
 brel/parsers/XML/xml_facts_parser.py  | 25 +++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 4c8aa76..e364a10 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -35,6 +35,7 @@ class ErrorCode(Enum):
         XML_FACT_INVALID_CONCEPT,
         XML_INVALID_FACT_CONTEXT_ID,
         XML_INVALID_FACT_UNIT_ID,
+        XML_FACT_WITHOUT_CONTEXT,
         IXBRL_DUPLICATE_ELEMENT_ID,
         IXBRL_ELEMENT_NOT_SUPPORTED,
         IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN,
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 939b03d..995b116 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -226,6 +226,13 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Unit ID {unit_id} is not valid.",
         "Check the `unitRef` attribute of the corresponding fact.",
     ),
+    ErrorCode.XML_FACT_WITHOUT_CONTEXT: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.XML_INSTANCE,
+        "103",
+        "Fact of concept {concept_name} does not have a context.",
+        "Add a `contextRef` attribute to the fact.",
+    ),
     # GENERAL: 000 - 099
     ErrorCode.IXBRL_DUPLICATE_ELEMENT_ID: lambda: ErrorInstance(
         Severity.ERROR,
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 1c04de6..50ca06c 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -136,6 +136,30 @@ def parse_fact_from_xml(
     )
 
 
+def report_facts_without_context(
+    context: FilingContext,
+    xbrl_instance: lxml.etree._ElementTree,  # type: ignore
+) -> None:
+    """
+    Record an error for every element of an instance that stands for a concept, but has no contextRef attribute.
+    """
+    report_element_repository = context.get_report_element_repository()
+
+    for xml_item in find_elements(
+        xbrl_instance,
+        "/xbrli:xbrl/*[not(self::xbrli:* or self::link:*)]/descendant-or-self::*[not(@contextRef)]",
+    ):
+        concept_name = get_clark_notation_tag(xml_item)
+        if report_element_repository.has_typed_qname(
+            qname_from_str(concept_name, xml_item), Concept
+        ):
+            context.get_error_repository().insert(
+                ErrorCode.XML_FACT_WITHOUT_CONTEXT,
+                xml_item,
+                concept_name=concept_name,
+            )
+
+
 def parse_facts_xml(
     context: FilingContext,
 ) -> None:
@@ -152,6 +176,7 @@ def parse_facts_xml(
     for xbrl_instance in xml_service.get_all_etrees():
         # the ids of units are only unique within one document
         units: dict[str, UnitCharacteristic] = {}
+        report_facts_without_context(context, xbrl_instance)
 
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
-- 
2.43.0


From dce11ac3f0a5106919e30b750af8012dc0a1ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 56/73] fix: only the suffix of an EDGAR document name becomes
 _htm.xml

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..7571433 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -150,7 +150,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
-            uri = uri.replace(".htm", "_htm.xml")
+            uri = uri[: -len(".htm")] + "_htm.xml"
             ping = session.get(
                 uri,
                 headers={
-- 
2.43.0


From 881b9e79e70db8cb3ebe2148bc0ea638e07315a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 57/73] fix: filings without a report date do not break the
 choice of an EDGAR filing

---
 brel/utils/edgar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 7571433..3fc824d 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -132,9 +132,8 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         right_is = [i for i in range(len(recent["form"])) if report_fits(i)]
 
-        right_is.sort(
-            key=lambda i: int(recent["reportDate"][i].replace("-", "")), reverse=True
-        )
+        # ISO dates sort like strings. Filings without a report date come last.
+        right_is.sort(key=lambda i: recent["reportDate"][i] or "", reverse=True)
 
         right_i = right_is[0] if len(right_is) > 0 else None
 
-- 
2.43.0


From cd715d003fbcf2c5687af7c4ec22a1673e91e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 58/73] fix: EDGAR metadata is refreshed after one day, not two

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 3fc824d..9c9d31d 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -114,7 +114,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
             - datetime.datetime.fromtimestamp(
                 os.path.getmtime(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
             )
-        ).days > 1:
+        ).days >= 1:
             if not __download_metadata_for_cik(cik):
                 raise ValueError(f"Failed to download metadata for CIK {cik}")
 
-- 
2.43.0


From 725e9fd90a5f4a662d62a569eafa20fa6196bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 59/73] fix: a CIK that is not a number is refused

---
 brel/utils/edgar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 9c9d31d..17c9aa0 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -97,6 +97,10 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
     if not isinstance(cik, str) or len(cik) > 10:
         raise ValueError("The CIK has to be a string with at most 10 characters")
 
+    # check that the cik is a number. It becomes part of file names and addresses.
+    if not (cik.isascii() and cik.isdigit()):
+        raise ValueError("The CIK has to consist of digits")
+
     # Check if the filing type is supported
     if filing_type not in SUPPORTED_FILING_TYPES:
         raise ValueError(
-- 
2.43.0


From 82dc400ca36dea98427200e820f93cbc3f3239fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 60/73] fix: an interrupted or unusable download of EDGAR
 metadata leaves the cache alone

---
 brel/utils/edgar.py | 46 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 17c9aa0..99f27d7 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -6,19 +6,39 @@ The module also provides a function for listing all filings for a given CIK and
 """
 
 from brel import Filing
-import requests, json, os, datetime
+import requests, json, os, datetime, tempfile
 
 SUPPORTED_FILING_TYPES = ["10-K", "10-Q", "8-K"]
 
 session = requests.Session()
 
 # the edgar cache dir is in the user's home directory in .brel_edgar_cache
-# create the directory if it does not exist
-if not os.path.exists(os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")):
-    os.makedirs(os.path.join(os.path.expanduser("~"), ".brel_edgar_cache"))
 edgar_cache_dir = os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")
 
 
+def __is_metadata(metadata) -> bool:
+    """
+    Checks if the given JSON value is a complete list of filings of a company.
+    :param metadata: The JSON value.
+    :return: True if it lists filings with everything that is needed to open them, False otherwise.
+    """
+    try:
+        recent = metadata["filings"]["recent"]
+        columns = [
+            recent[name]
+            for name in [
+                "form",
+                "isXBRL",
+                "reportDate",
+                "accessionNumber",
+                "primaryDocument",
+            ]
+        ]
+        return "name" in metadata and len({len(column) for column in columns}) == 1
+    except (KeyError, TypeError):
+        return False
+
+
 def __download_metadata_for_cik(cik: str) -> bool:
     """
     Downloads the file for the cik and places it in the edgar cache dir.
@@ -33,8 +53,22 @@ def __download_metadata_for_cik(cik: str) -> bool:
         return False
 
     response_json = response.json()
-    with open(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"), "w") as f:
-        json.dump(response_json, f)
+    if not __is_metadata(response_json):
+        return False
+
+    # The file appears in the cache in one step.
+    # An interrupted download never leaves an incomplete file behind.
+    os.makedirs(edgar_cache_dir, exist_ok=True)
+    file_descriptor, temporary_path = tempfile.mkstemp(dir=edgar_cache_dir)
+    try:
+        with open(file_descriptor, "w") as f:
+            json.dump(response_json, f)
+        os.replace(
+            temporary_path, os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json")
+        )
+    except BaseException:
+        os.remove(temporary_path)
+        raise
 
     return True
 
-- 
2.43.0


From dcd6efbe0a792fc5702ae37cf975b11a2c2d3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:33 +0000
Subject: [PATCH 61/73] fix: damaged EDGAR metadata in the cache is downloaded
 again

---
 brel/utils/edgar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 99f27d7..3b499a2 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -75,11 +75,15 @@ def __download_metadata_for_cik(cik: str) -> bool:
 
 def __is_cached(cik: str) -> bool:
     """
-    Checks if the metadata for the given CIK is cached.
+    Checks if usable metadata for the given CIK is cached.
     :param cik: The CIK of the company.
     :return: True if the metadata is cached, False otherwise.
     """
-    return os.path.exists(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
+    try:
+        with open(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"), "r") as f:
+            return __is_metadata(json.load(f))
+    except (OSError, ValueError):
+        return False
 
 
 def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
-- 
2.43.0


From b29791c07d61973005684cd6ee2f8b4f624f2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 62/73] fix: units with several measures are read completely

---
 .../XML/characteristics/xml_parse_unit.py     | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 57b92c9..5cf88a7 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -78,7 +78,15 @@ def parse_unit_from_xml(
 
     # get the child elements of the unit and check if its tag is 'measure' or 'divide'
     children = get_child_elements(xml_element)
-    if len(children) != 1:
+    if len(children) > 1 and all("measure" in child.tag for child in children):
+        # several measures stand for their product
+        for child in children:
+            child_qname = parse_unit_measure_from_xml(child, filing_context)
+            if not child_qname:
+                return None
+
+            numerators.append(child_qname)
+    elif len(children) != 1:
         error_repository.insert(
             ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD,
             xml_element,
@@ -130,16 +138,19 @@ def parse_unit_from_xml(
                     )
                     return None
 
-                measure_child = measure_children[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
+                # several measures stand for their product
+                for measure_child in measure_children:
+                    child_qname = parse_unit_measure_from_xml(
+                        measure_child, filing_context
+                    )
 
-                if not child_qname:
-                    return None
+                    if not child_qname:
+                        return None
 
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
+                    if "unitNumerator" in num_or_denom_tag:
+                        numerators.append(child_qname)
+                    elif "unitDenominator" in num_or_denom_tag:
+                        denominators.append(child_qname)
 
             if num_and_denom[0].tag == num_and_denom[1].tag:
                 error_repository.insert(
-- 
2.43.0


From 2eedb478ed569bdc001993b52cc04984b4e518db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 63/73] fix: midnight as an instant or end date belongs to the
 day before

---
 brel/characteristics/period_characteristic.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index b17b75b..40b1899 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -137,6 +137,21 @@ class PeriodCharacteristic(ICharacteristic):
         except ValueError:
             return False
 
+    @staticmethod
+    def _parse_end_date(date: str) -> datetime.date:
+        """
+        Parses the date of an instant or the end date of a duration.
+        They stand for the end of their day, so midnight at the start of a day belongs to the day before.
+        :param date: the string to parse
+        :returns datetime.date: the day that ends with the date
+        """
+        end = dateutil.parser.parse(date)
+        is_midnight = "T" in date and end.time() == datetime.time()
+        if is_midnight and end.date() > datetime.date.min:
+            end -= datetime.timedelta(days=1)
+
+        return end.date()
+
     @classmethod
     def _instant(cls, instant_date: str) -> "PeriodCharacteristic":
         """
@@ -149,7 +164,7 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"Instant date '{instant_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__instant_date = dateutil.parser.parse(instant_date).date()
+        period_instance.__instant_date = cls._parse_end_date(instant_date)
         period_instance.__is_instant = True
 
         return period_instance
@@ -171,7 +186,7 @@ class PeriodCharacteristic(ICharacteristic):
 
         period_instance = cls()
         period_instance.__start_date = dateutil.parser.parse(start_date).date()
-        period_instance.__end_date = dateutil.parser.parse(end_date).date()
+        period_instance.__end_date = cls._parse_end_date(end_date)
         period_instance.__is_instant = False
 
         # if period_instance.start_date > period_instance.end_date:
-- 
2.43.0


From b3662b836eff205e1b3003028df66fb097c7dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 64/73] fix: facts with the period forever are valid

---
 brel/parsers/XML/characteristics/xml_parse_period.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_period.py b/brel/parsers/XML/characteristics/xml_parse_period.py
index 5cf4418..18742cb 100644
--- a/brel/parsers/XML/characteristics/xml_parse_period.py
+++ b/brel/parsers/XML/characteristics/xml_parse_period.py
@@ -119,6 +119,9 @@ def parse_period_from_xml(
     instant_element = xml_element.find("./{*}instant")
     if instant_element is not None:
         return parse_instant_period_from_xml(filing_context, instant_element)
+    elif xml_element.find("./{*}forever") is not None:
+        # facts that always hold do not have the period aspect
+        return None
     else:
         start_date_elem = xml_element.find("./{*}startDate", namespaces=None)
         if start_date_elem is None:
-- 
2.43.0


From 22d2749cbbda072e4bfb6605fe26a496ef9863fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 65/73] fix: component texts are printed literally

---
 brel/utils/print_component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/utils/print_component.py b/brel/utils/print_component.py
index 024c490..cc365ff 100644
--- a/brel/utils/print_component.py
+++ b/brel/utils/print_component.py
@@ -11,6 +11,7 @@ Module for pretty printing a component and all its networks to the console.
 """
 
 import rich
+from rich.text import Text
 from brel import Component
 from brel.utils import pprint_network
 
@@ -22,8 +23,9 @@ def pprint_component(component: Component):
 
     # print(f"Component: {component.get_URI()}")
     # print(f"Info: {component.get_info()}")
-    rich.print(f"[bold]Component:[/bold] {component.get_URI()}")
-    rich.print(f"[italic]Info:[/italic] {component.get_info()}")
+    # the texts of the report may contain brackets and colons, which are not markup
+    rich.print(Text.assemble(("Component:", "bold"), " ", component.get_URI()))
+    rich.print(Text.assemble(("Info:", "italic"), " ", component.get_info() or ""))
 
     networks = component.get_networks()
     for network in networks:
-- 
2.43.0


From 5587415f5901c4bc61aa5288c28e3069a8e9930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 66/73] fix: integers and numbers are read as XML Schema writes
 them

---
 brel/brel_fact.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index 2d49a4d..55be8e5 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -15,6 +15,7 @@ To print a fact to the console, use the `pprint` function in the `brel` module.
 ====================
 """
 
+import re
 from typing import Any, List, Optional, cast
 
 from brel import Context
@@ -29,6 +30,13 @@ from brel.characteristics import (
 )
 from brel.services.translation.translation_service import TranslationService
 
+# The lexical representations of XML Schema. Python's int() and float() accept more than these, e.g. "1_000".
+XML_WHITESPACE = " \t\n\r"
+INTEGER_PATTERN = re.compile(r"[+-]?[0-9]+")
+NUMBER_PATTERN = re.compile(
+    r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?INF|NaN"
+)
+
 
 class Fact:
     """
@@ -85,7 +93,10 @@ class Fact:
         :raises ValueError: If the value of the fact does not resolve to an int
         """
         try:
-            return int(self.__value)
+            literal = self.__value.strip(XML_WHITESPACE)
+            if not INTEGER_PATTERN.fullmatch(literal):
+                raise ValueError(f"{literal} is not an integer")
+            return int(literal)
         except ValueError:
             raise ValueError(
                 f"Fact {self.__id} does not have an int value. It has value {self.__value}, which does not resolve to an int"
@@ -101,7 +112,10 @@ class Fact:
         :raises ValueError: If the value of the fact does not resolve to a float
         """
         try:
-            return float(self.__value)
+            literal = self.__value.strip(XML_WHITESPACE)
+            if not NUMBER_PATTERN.fullmatch(literal):
+                raise ValueError(f"{literal} is not a number")
+            return float(literal)
         except ValueError:
             raise ValueError(
                 f"Fact {self.__id} does not have a float value. It has value {self.__value}, which does not resolve to a float"
-- 
2.43.0


From 278009836468c8959382d3efdb1153c18b78e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 67/73] fix: booleans may be written as 1 and 0

---
 brel/brel_fact.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index 55be8e5..d54cb1b 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -130,9 +130,10 @@ class Fact:
         :returns bool: The value of the fact as a bool
         :raises ValueError: If the value of the fact does not resolve to a bool
         """
-        if self.__value.upper() == "TRUE":
+        literal = self.__value.strip(XML_WHITESPACE).upper()
+        if literal in ("TRUE", "1"):
             return True
-        elif self.__value.upper() == "FALSE":
+        elif literal in ("FALSE", "0"):
             return False
         else:
             raise ValueError(
-- 
2.43.0


From 0a12d3f471ff1177b752ea9e8509539dc525a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 68/73] fix: dimensions whose names differ in the namespace
 only keep their own names

---
 brel/data/aspect/in_memory_aspect_repository.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/data/aspect/in_memory_aspect_repository.py b/brel/data/aspect/in_memory_aspect_repository.py
index d231d87..60067e3 100644
--- a/brel/data/aspect/in_memory_aspect_repository.py
+++ b/brel/data/aspect/in_memory_aspect_repository.py
@@ -23,7 +23,12 @@ class InMemoryAspectRepository(AspectRepository):
 
     def get_or_create_by_qname(self, qname: QName) -> Aspect:
         if qname not in self.__aspects_by_qname:
-            aspect = Aspect(qname.prefix_local_name_notation(), [], qname)
+            name = qname.prefix_local_name_notation()
+            # other documents may use the prefix for a different namespace
+            if self.has(name):
+                name = qname.clark_notation()
+
+            aspect = Aspect(name, [], qname)
             self.__aspects_by_qname[qname] = aspect
             self.upsert(aspect)
 
-- 
2.43.0


From 4422edbe00a086ab0a250eb9707262e4d70234ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:48 +0000
Subject: [PATCH 69/73] fix: read documents of any size and depth

---
 brel/services/factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 6fe17b1..77418ab 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+from lxml.etree import XMLParser
 from lxml.etree import parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
@@ -56,6 +57,7 @@ def create_xml_service(
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
     return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
+        # the contents of reports may be longer and nested deeper than the parser admits by default
+        lambda content: parse_xml(content, XMLParser(huge_tree=True)),
+        lambda content: parse_xml(content, XMLParser(huge_tree=True)),
     )
-- 
2.43.0


From b405e11273a0ed4a8d77f42608a67abf9a60a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 70/73] fix: compare aspects by what they denote

---
 brel/characteristics/brel_aspect.py                       | 5 ++++-
 brel/characteristics/concept_characteristic.py            | 8 ++++++++
 brel/characteristics/explicit_dimension_characteristic.py | 2 +-
 brel/characteristics/typed_dimension_characteristic.py    | 2 +-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/brel/characteristics/brel_aspect.py b/brel/characteristics/brel_aspect.py
index 96c1ad0..70d3f1f 100644
--- a/brel/characteristics/brel_aspect.py
+++ b/brel/characteristics/brel_aspect.py
@@ -131,7 +131,10 @@ class Aspect:
             return labels[0]
 
     def __hash__(self) -> int:
-        return hash(self.__name)
+        # equal aspects may have names with different prefixes
+        if self.__qname is not None:
+            return hash(self.__qname.get_local_name())
+        return hash(self.__name.rpartition(":")[2])
 
     def __eq__(self, __value: object) -> bool:
         if isinstance(__value, Aspect):
diff --git a/brel/characteristics/concept_characteristic.py b/brel/characteristics/concept_characteristic.py
index 0423ab2..4dff1ba 100644
--- a/brel/characteristics/concept_characteristic.py
+++ b/brel/characteristics/concept_characteristic.py
@@ -47,3 +47,11 @@ class ConceptCharacteristic(ICharacteristic):
         :returns Aspect: returns the `Aspect.CONCEPT` aspect
         """
         return Aspect.CONCEPT
+
+    def __eq__(self, __value: object) -> bool:
+        if not isinstance(__value, ConceptCharacteristic):
+            return False
+        return self.__concept == __value.__concept
+
+    def __hash__(self) -> int:
+        return hash(self.__concept.get_name())
diff --git a/brel/characteristics/explicit_dimension_characteristic.py b/brel/characteristics/explicit_dimension_characteristic.py
index d69f607..7a248d4 100644
--- a/brel/characteristics/explicit_dimension_characteristic.py
+++ b/brel/characteristics/explicit_dimension_characteristic.py
@@ -83,6 +83,6 @@ class ExplicitDimensionCharacteristic(ICharacteristic):
         if not isinstance(__value, ExplicitDimensionCharacteristic):
             return False
         return (
-            self.get_member() == __value.get_member()
+            self.get_member().get_name() == __value.get_member().get_name()
             and self.get_aspect() == __value.get_aspect()
         )
diff --git a/brel/characteristics/typed_dimension_characteristic.py b/brel/characteristics/typed_dimension_characteristic.py
index 367c6c8..344ff56 100644
--- a/brel/characteristics/typed_dimension_characteristic.py
+++ b/brel/characteristics/typed_dimension_characteristic.py
@@ -56,7 +56,7 @@ class TypedDimensionCharacteristic(ICharacteristic):
     def __eq__(self, __value: object) -> bool:
         if isinstance(__value, TypedDimensionCharacteristic):
             return (
-                self.__dimension == __value.__dimension
+                self.__dimension.get_name() == __value.__dimension.get_name()
                 and self.__aspect == __value.__aspect
                 and self.__value == __value.__value
             )
-- 
2.43.0


From d50b4940a2f1d9f5f446cd8c82f6426aaac40e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 71/73] fix: accept as decimals and precision only integers of
 XML Schema and INF

---
 .../XHMTL/elements/parse_non_fraction.py      | 19 +++++++++----------
 brel/parsers/XML/xml_facts_parser.py          | 10 +++++++---
 brel/parsers/utils/lxml_utils.py              |  9 +++++++++
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index de4d154..8b58c0d 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -14,6 +14,7 @@ from brel.parsers.utils.lxml_utils import (
     get_prefix_localname_tag,
     get_str_attribute_optional,
     get_text,
+    is_integer_number,
 )
 from lxml.etree import _Element
 from brel.contexts.filing_context import FilingContext
@@ -25,17 +26,15 @@ def parse_decimals_or_precision(
     if str_value is None:
         return None
 
-    try:
-        value = float(int(str_value))
-    except ValueError:
-        if str_value == "INF":
-            value = float("inf")
-        else:
-            raise ValueError(
-                f"{'Decimals' if is_decimals else 'Precision'} should be an integer or 'INF'. Got {str_value} instead."
-            )
+    if str_value.strip() == "INF":
+        return float("inf")
+
+    if not is_integer_number(str_value):
+        raise ValueError(
+            f"{'Decimals' if is_decimals else 'Precision'} should be an integer or 'INF'. Got {str_value} instead."
+        )
 
-    return value
+    return float(str_value)
 
 
 def validate_descendant_non_fraction_rules(
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 50ca06c..3fba0b8 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -31,6 +31,7 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute,
     get_clark_notation_tag,
     get_text,
+    is_integer_number,
 )
 
 
@@ -69,12 +70,15 @@ def parse_decimals_or_precision_xml(
     if value is None:
         return None
 
-    try:
-        return float("inf") if value.strip() == "INF" else float(int(value))
-    except ValueError:
+    if value.strip() == "INF":
+        return float("inf")
+
+    if not is_integer_number(value):
         error_repository.insert(error_code, fact_xml_element, **{attribute: value})
         return None
 
+    return float(value)
+
 
 def parse_fact_from_xml(
     filingContext: FilingContext,
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index def9a03..bb6bc5e 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -150,6 +150,15 @@ def is_decimal_number(value: str) -> bool:
     )
 
 
+def is_integer_number(value: str) -> bool:
+    """
+    Helper function for checking if a string is a number according to the integer type of XML schema.
+    :param value: str to check
+    :returns: bool indicating if the string is an integer
+    """
+    return re.fullmatch(r"[+-]?[0-9]+", value.strip()) is not None
+
+
 def get_child_elements(element: _Element) -> list[_Element]:
     """
     Helper function for getting the child elements of an element, without comments and processing instructions.
-- 
2.43.0


From 1c47dea3699b86c4592c00b392761f3b3ba62688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 72/73] fix: accept as scale only integers of XML Schema

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 46f75ab..29eaef6 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -8,6 +8,7 @@ from lxml.etree import _Element
 
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
+from brel.parsers.utils.lxml_utils import is_integer_number
 
 # All versions of the transformation registry
 TRANSFORMATION_REGISTRY_REGEX = (
@@ -1042,6 +1043,8 @@ def process_numerical_fact_value(
     # Parse the scale
     scale = 0
     try:
+        if not is_integer_number(fact_scale):
+            raise ValueError(f"{fact_scale} is not an integer")
         scale = int(fact_scale)
     except Exception:
         error_repository.insert(
-- 
2.43.0


From 2c93357db7dea148918cec98e6c4ddaf4fcd1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 73/73] fix: accept as order of an inline relationship only
 decimals of XML Schema

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index e56ccea..59aa250 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -20,6 +20,7 @@ from brel.parsers.XHMTL.networks import xhtml_footnote_network_elements
 from brel.parsers.utils.lxml_utils import (
     get_elem_lang_recursive,
     get_str_attribute_optional,
+    is_decimal_number,
 )
 from brel.parsers.utils.url_utils import is_valid_uri
 import brel.qnames.qname as qname
@@ -219,9 +220,9 @@ def parse_relationship_attributes(
     order_str = get_str_attribute_optional(relationship_element, "order")
 
     if order_str:
-        try:
+        if is_decimal_number(order_str):
             order = float(order_str)
-        except ValueError:
+        else:
             error_repository.insert(
                 ErrorCode.IXBRL_RELATIONSHIP_INVALID_ORDER,
                 relationship_element,
-- 
2.43.0

