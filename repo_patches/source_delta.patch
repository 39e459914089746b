From 7568dd5135968e601268456f08abc4f869bb591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 01/16] fix: material composition of repeated substances must
 add up to one

---
 src/fisx_material.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..7d92d0c 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -140,7 +140,8 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
 
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        // the same substance can appear more than once
+        this->composition[names[i]] += amounts[i] / total;
     }
 
 }
-- 
2.43.0


From 1bb490214d512c790018c7ac8fd9611e4551535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 02/16] fix: E1(x) must be defined at x equal to 1

---
 src/fisx_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 7d3724a..2af7e7e 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -64,7 +64,7 @@ double Math::E1(const double & x)
         }
         return result - std::log(-x);
     }
-    if(x < 1)
+    if(x <= 1)
     {
         return Math::AS_5_1_53(x) - std::log(x);
     }
-- 
2.43.0


From 7155209bc806199d8f5a592a653e8e083da139fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 03/16] fix: AS_5_1_56 must evaluate the Abramowitz and Stegun
 rational approximation

---
 src/fisx_math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 2af7e7e..a6799d0 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -145,9 +145,9 @@ double Math::AS_5_1_56(const double & x)
     {
 		throw std::invalid_argument("AS_5_1_56(x) Invalid argument. 1 <= x ");
     }
-    num = a[3] * x;
-    den = b[3] * x;
-    for (int i = 2; i >= 0; --i)
+    num = 1.0;
+    den = 1.0;
+    for (int i = 0; i < 4; ++i)
     {
         num = (num * x )+ a[i];
         den = (den * x )+ b[i];
-- 
2.43.0


From 0c33447b848c6583892fef6700278937f87893ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 04/16] fix: clear the excitation cache when binding energies
 or radiative rates change

---
 src/fisx_element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..33d7f85 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -150,6 +150,7 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
     // get rid of any shell definition
     this->shellInstance.clear();
     this->bindingEnergy.clear();
+    this->clearCache();
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
@@ -983,6 +984,7 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
-- 
2.43.0


From 2e225182828aee0aff5023a6e85af4a4e6516ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 05/16] fix: read formulas with groups exactly and reject
 malformed counts

A formula with parentheses was rewritten as text and read again: the counts
lost their precision (or became 2e+06, read as the element Ce), a single
element after the last group was lost ((OH)2C), and nested or unnumbered groups
((H2O)2), (OH)C were rejected. Counts followed by other characters, and counts
of zero, were taken.
---
 src/fisx_elements.cpp | 100 +++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 44 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..3fcb7af 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1619,7 +1619,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
     std::vector<std::string::size_type> openParenthesis;
     std::vector<std::string::size_type> closeParenthesis;
     std::vector<std::string::size_type>::size_type nParenthesis;
-    std::string newFormula;
+    int nOpen;
     bool parsingKey;
     std::string lastKey;
     std::string lastNumber;
@@ -1675,76 +1675,82 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
     nParenthesis = openParenthesis.size();
     if ( nParenthesis > 0)
     {
-        if (nParenthesis > 1)
+        // look for the parenthesis closing the first one opened
+        p1 = openParenthesis[0];
+        nOpen = 0;
+        for (p2 = p1; p2 < formula.size(); ++p2)
         {
-            p1 = 0;
-            for (i = 0; i < nParenthesis; ++i)
-            {
-                if (openParenthesis[i] < closeParenthesis[0])
-                    p1 = openParenthesis[i];
-            }
+            if (formula[p2] == '(')
+                ++nOpen;
+            if (formula[p2] == ')')
+                --nOpen;
+            if (nOpen == 0)
+                break;
         }
-        else
+        if ((p2 == formula.size()) || (closeParenthesis[0] < p1))
         {
-            p1 = openParenthesis[0];
+            // the parenthesis do not match
+            return composition;
         }
-        p2 = closeParenthesis[0];
         length = p2 - p1 - 1;
         if(length < 1)
         {
             // empty substring
             return composition;
         }
-        tmpComposition = this->parseFormula(formula.substr(p1 + 1, length));
-        if (tmpComposition.size() < 1)
+        // get the number associated to the parenthesis
+        i = p2 + 1;
+        while( i < formula.size())
         {
-            return tmpComposition;
+            if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
+            {
+                break;
+            }
+            i += 1;
         }
-        // get the numbers assoiated to the parenthesis
-        if ((p2+1) == formula.size())
+        if (i == (p2 + 1))
         {
             // the number associated  to that parenthesis is 1
             factor = 1.0;
         }
         else
         {
-            i = p2 + 1;
-            while( i < formula.size())
-            {
-                if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
-                {
-                    break;
-                }
-                i += 1;
-            }
-            if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
+            if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor) || !(factor > 0.0))
             {
                 return composition;
-            };
-        }
-        /* better generate a new formula than to try to deal with everything here
-        for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
-        {
-            tmpComposition[it->first] *= factor;
+            }
         }
-        */
-        if (p1 == 0)
+        // what is before, between and after the parenthesis
+        if (p1 > 0)
         {
-            newFormula = "";
+            composition = this->parseFormula(formula.substr(0, p1));
+            if (composition.size() < 1)
+            {
+                return composition;
+            }
         }
-        else
+        tmpComposition = this->parseFormula(formula.substr(p1 + 1, length));
+        if (tmpComposition.size() < 1)
         {
-            newFormula = formula.substr(0, p1);
+            return tmpComposition;
         }
         for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
         {
-            newFormula += it->first + this->toString(it->second * factor);
+            composition[it->first] += it->second * factor;
         }
-        if (i < (formula.size()-1))
+        if (i < formula.size())
         {
-            newFormula += formula.substr(i, formula.size() - i);
+            tmpComposition = this->parseFormula(formula.substr(i, formula.size() - i));
+            if (tmpComposition.size() < 1)
+            {
+                return tmpComposition;
+            }
+            for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
+            {
+                composition[it->first] += it->second;
+            }
         }
-        return this->parseFormula(newFormula);
+        return composition;
     }
     else
     {
@@ -1765,7 +1771,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
                     keys.push_back(lastKey);
                     if (lastNumber.size() > 0)
                     {
-                        if (this->stringToDouble(lastNumber, factor))
+                        if (this->stringToDouble(lastNumber, factor) && (factor > 0.0))
                             numbers.push_back(factor);
                         else
                             return composition;
@@ -1783,6 +1789,11 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             {
                 if (islower(formula[i]))
                 {
+                    if (!parsingKey)
+                    {
+                        // a symbol starts with an upper case letter
+                        return composition;
+                    }
                     lastKey += formula.substr(i, 1);
                 }
                 else
@@ -1804,7 +1815,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             else
             {
                 keys.push_back(lastKey);
-                if (this->stringToDouble(lastNumber, factor))
+                if (this->stringToDouble(lastNumber, factor) && (factor > 0.0))
                     numbers.push_back(factor);
                 else
                     return composition;
@@ -1971,7 +1982,8 @@ bool Elements::stringToDouble(const std::string& str, double& number)
         // Number conversion failed
         return false;
     }
-    return true;
+    // The whole string has to be the number
+    return i.eof();
 }
 
 std::string Elements::toString(const double& number)
-- 
2.43.0


From 9cd65f38b64ad299789c555ea6e430f9fe67a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 06/16] fix: a layer without density takes the one of its
 material

Layer::setMaterial compared the density with < 0.0 while a layer that does not
give one has 0.0 (the thickness is compared with <= 0.0), so its transmission
could not be calculated.
---
 src/fisx_layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index 16b509f..d54a25f 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -71,7 +71,7 @@ void Layer::setMaterial(const std::string & materialName)
 void Layer::setMaterial(const Material & material)
 {
     this->material = material;
-    if (this->density < 0.0)
+    if (this->density <= 0.0)
     {
         this->density = this->material.getDefaultDensity();
     }
-- 
2.43.0


From 7be76b3f06c10c9ff55db93a557a214d8e94e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 07/16] fix: tertiary excitation must not add layers that were
 not calculated

---
 src/fisx_multilayer.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..4c677d8 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -1100,6 +1100,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         // Tertiary will not be correct if the peaks of the sample elements are not
         // included in the list of peaks
         std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > >::iterator actualResultIt;
+        std::map<int, std::map<std::string, std::map<std::string, double> > >::iterator layerIt;
         std::map<std::string, std::map<std::string, double> >::iterator c_it;
         std::map<std::string, std::map<std::string, double> >::iterator it;
         std::map<std::string, std::map<std::string, double> >::iterator it2;
@@ -1113,10 +1114,10 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
             ele = actualResultIt->first.substr(0, actualResultIt->first.find(' '));
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            // only the layers actually calculated
+            for (layerIt = actualResultIt->second.begin(); layerIt != actualResultIt->second.end(); ++layerIt)
             {
-                for (it = actualResultIt->second[iLayer].begin(); \
-                     it != actualResultIt->second[iLayer].end(); ++it)
+                for (it = layerIt->second.begin(); it != layerIt->second.end(); ++it)
                 {
                     //std::cout << it->first << std::endl;
                     if (it->first.find("esc") != std::string::npos)
@@ -1145,7 +1146,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                     {
                         tmpStringStream.str(std::string());
                         tmpStringStream.clear();
-                        tmpStringStream << std::setfill('0') << std::setw(2) << iLayer;
+                        tmpStringStream << std::setfill('0') << std::setw(2) << layerIt->first;
                         key = ele + " " + it->first + " " + tmpStringStream.str();
                         contributingKeys[key] = factorFirst;
                         // the factor will be the same for all lines starting by KL2, being escape or not
@@ -1156,10 +1157,10 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            // only the layers actually calculated
+            for (layerIt = actualResultIt->second.begin(); layerIt != actualResultIt->second.end(); ++layerIt)
             {
-                for (it = actualResultIt->second[iLayer].begin(); \
-                     it != actualResultIt->second[iLayer].end(); ++it)
+                for (it = layerIt->second.begin(); it != layerIt->second.end(); ++it)
                 {
                     factorFirst = 1.0;
                     tertiary = 0.0;
@@ -1180,9 +1181,9 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                         // the originating line that should already be calculated
                         key = it->first.substr(0, it->first.find(" "));
                         tertiary = (it->second["primary"] + it->second["secondary"]) * \
-                                   (actualResultIt->second[iLayer][key]["tertiary"] /  \
-                                   (actualResultIt->second[iLayer][key]["primary"] +   \
-                                    actualResultIt->second[iLayer][key]["secondary"]));
+                                   (layerIt->second[key]["tertiary"] /  \
+                                   (layerIt->second[key]["primary"] +   \
+                                    layerIt->second[key]["secondary"]));
                     }
                     else
                     {
-- 
2.43.0


From f406b04795f52e933cc63435774275d0045efbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 08/16] fix: a repeated request must not count the fluorescence
 of a layer twice

---
 src/fisx_multilayer.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 4c677d8..abb9d47 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -470,6 +470,22 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                     // no need to calculate this layer
                     continue;
                 }
+                // a layer reached by a previous request for the same lines is already accounted for
+                bool alreadyCalculated = false;
+                for (std::vector<std::string>::size_type jElement = 0; jElement < iElement; jElement++)
+                {
+                    int previousLayer = (layerList.size() > 1) ? layerList[jElement] : layerList[0];
+                    if ((elementList[jElement] == elementName) && (familyList[jElement] == lineFamily) && \
+                        ((previousLayer < 0) || (previousLayer == (int) iLayer)))
+                    {
+                        alreadyCalculated = true;
+                        break;
+                    }
+                }
+                if (alreadyCalculated)
+                {
+                    continue;
+                }
                 elementMassFractionFactor = 1.0;
                 if(true)
                 {
-- 
2.43.0


From 750a5e4d630ca56ff0c475ecf82e6b146211b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:40 +0000
Subject: [PATCH 09/16] fix: refuse a negative reference layer

---
 src/fisx_xrfconfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..32f9335 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -547,9 +547,9 @@ void XRFConfig::setUserBeamFilters(const std::vector<TransmissionTable> & transm
 
 void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referenceLayer)
 {
-    if (referenceLayer >= (int) layers.size())
+    if ((referenceLayer < 0) || (referenceLayer >= (int) layers.size()))
     {
-        throw std::invalid_argument("Reference layer must be smaller than number of layers");
+        throw std::invalid_argument("Reference layer must not be negative and must be smaller than number of layers");
     }
     this->sample = layers;
     this->referenceLayer = referenceLayer;
-- 
2.43.0


From 50c731802ffea53948648beb58e95d13d8cb6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 10/16] fix: the escape cache must follow the data of the
 elements

---
 src/fisx_elements.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 3fcb7af..1890a08 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -155,6 +155,9 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     std::string joinSymbol;
     std::string filename;
 
+    // The escape cache is not used unless requested
+    this->escapeCacheEnabled = 0;
+
     // Indicate we are going to configure everything
     this->shellConstantsFile["K"] = "";
     this->shellConstantsFile["L"] = "";
@@ -302,6 +305,7 @@ void Elements::addElement(const Element & element)
 {
     std::string name;
     name = element.getName();
+    this->clearEscapeCache();
 
     if (this->elementDict.find(name) != this->elementDict.end())
     {
@@ -338,6 +342,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         throw std::invalid_argument("Invalid main shell <" + mainShellName +">");
     }
 
+    this->clearEscapeCache();
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -446,6 +451,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         throw std::invalid_argument(msg);
     }
 
+    this->clearEscapeCache();
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -542,6 +548,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         throw std::invalid_argument(msg);
     }
 
+    this->clearEscapeCache();
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -742,6 +749,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     }
 
 
+    this->clearEscapeCache();
+
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
     // we are doing this because the only compilation providing subshell photoelectric cross sections
-- 
2.43.0


From 6acaa0b65aa1452191a4e1e71ce2a41b548e9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 11/16] fix: shell data rows belong to the element given by
 their atomic number

---
 src/fisx_elements.cpp | 67 ++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 1890a08..1fd04d4 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -318,6 +318,42 @@ void Elements::addElement(const Element & element)
         this->elementList.push_back(element);
     }
 }
+// Position of the element a row of shell data refers to: the one given by its atomic number
+// or, if the data have no column with it, the one with the same position as the row
+static std::vector<Element>::size_type getRowElementIndex(const std::vector<std::string> & labels, \
+                                                        const std::vector<double> & values, \
+                                                        const std::vector<Element>::size_type & row, \
+                                                        const std::vector<Element> & elements, \
+                                                        const std::string & fileName)
+{
+    std::vector<std::string>::size_type i;
+    std::vector<Element>::size_type index;
+
+    if (values.size() != labels.size())
+    {
+        throw std::ios_base::failure("Number of values does not match number of labels in " + fileName);
+    }
+    for (i = 0; i < labels.size(); i++)
+    {
+        if (labels[i] == "Z")
+        {
+            for (index = 0; index < elements.size(); index++)
+            {
+                if (elements[index].getAtomicNumber() == values[i])
+                {
+                    return index;
+                }
+            }
+            throw std::ios_base::failure("Unknown atomic number in " + fileName);
+        }
+    }
+    if (row >= elements.size())
+    {
+        throw std::ios_base::failure("More rows than elements in " + fileName);
+    }
+    return row;
+}
+
 // Shell constants
 void Elements::setShellConstantsFile(const std::string & mainShellName, \
                                      const std::string & fileName)
@@ -329,6 +365,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
     std::vector<std::string> subShells;
     std::vector<std::vector<double> > tmpValues;
     std::vector<std::vector<double> >::size_type n;
+    std::vector<Element>::size_type index;
     std::map<std::string, double > tmpDict;
     std::string msg;
 
@@ -387,14 +424,10 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
-        {
-            msg = "Number of values does not match number of labels in " + fileName;
-            throw std::ios_base::failure(msg);
-        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
+            index = getRowElementIndex(tmpLabels, tmpValues[n], n, this->elementList, fileName);
             for (j = 0; j < nLabels; j++)
             {
                 if (tmpLabels[j] != "Z")
@@ -419,7 +452,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
                 }
 
             }
-            this->elementList[n].setShellConstants(subShells[i], tmpDict);
+            this->elementList[index].setShellConstants(subShells[i], tmpDict);
         }
     }
     this->shellConstantsFile[mainShellName] = fileName;
@@ -435,6 +468,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
     std::vector<std::string> subShells;
     std::vector<std::vector<double> > tmpValues;
     std::vector<std::vector<double> >::size_type n;
+    std::vector<Element>::size_type index;
     std::map<std::string, double > tmpDict;
     std::map<std::string, double > bindingE;
     std::string subshell;
@@ -496,14 +530,10 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
-        {
-            msg = "Number of values does not match number of labels in " + fileName;
-            throw std::ios_base::failure(msg);
-        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
+            index = getRowElementIndex(tmpLabels, tmpValues[n], n, this->elementList, fileName);
             for (j = 0; j < nLabels; j++)
             {
                 if (tmpLabels[j] != "Z")
@@ -512,10 +542,10 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
                 }
 
             }
-            bindingE = this->elementList[n].getBindingEnergies();
+            bindingE = this->elementList[index].getBindingEnergies();
             if(bindingE[subShells[i]] > 0.0)
             {
-                this->elementList[n].setNonradiativeTransitions(subShells[i], tmpDict);
+                this->elementList[index].setNonradiativeTransitions(subShells[i], tmpDict);
             }
         }
     }
@@ -532,6 +562,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
     std::vector<std::string> subShells;
     std::vector<std::vector<double> > tmpValues;
     std::vector<std::vector<double> >::size_type n;
+    std::vector<Element>::size_type index;
     std::map<std::string, double > tmpDict;
     std::map<std::string, double > bindingE;
     std::string subshell;
@@ -593,14 +624,10 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
-        {
-            msg = "Number of values does not match number of labels in " + fileName;
-            throw std::ios_base::failure(msg);
-        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
+            index = getRowElementIndex(tmpLabels, tmpValues[n], n, this->elementList, fileName);
             for (j = 0; j < nLabels; j++)
             {
                 if (tmpLabels[j] != "Z")
@@ -609,10 +636,10 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
                 }
 
             }
-            bindingE = this->elementList[n].getBindingEnergies();
+            bindingE = this->elementList[index].getBindingEnergies();
             if(bindingE[subShells[i]] > 0.0)
             {
-                this->elementList[n].setRadiativeTransitions(subShells[i], tmpDict);
+                this->elementList[index].setRadiativeTransitions(subShells[i], tmpDict);
             }
         }
     }
-- 
2.43.0


From eade84db98b1cfe7c3e87d55a8171b43d5abd068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 12/16] fix: interpolation interval outside a cross-section
 table does not depend on the previous query

---
 src/fisx_epdl97.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..6330341 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -834,6 +834,18 @@ std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double>
         counter++;
     }
     // std::cout << "Needed " << counter << " iterations " << std::endl;
+    if ((iMin == iMax) && (length > 1))
+    {
+        // outside the table: use the interval at that end of it irrespective of the previous call
+        if (iMax > 0)
+        {
+            iMin = iMax - 1;
+        }
+        else
+        {
+            iMax = 1;
+        }
+    }
     result.first = (long) iMin;
     result.second = (long) iMax;
     return result;
-- 
2.43.0


From 8e38bd7bef90230f2af775aa85c2a16c6287b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:20 +0000
Subject: [PATCH 13/16] fix: partial photoelectric coefficients of shells with
 missing or too short tables are not read out of bounds

---
 src/fisx_element.cpp | 71 +++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 33d7f85..910b17b 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -688,7 +688,7 @@ std::map<std::string, double> \
     std::map<std::string, double> result;
     std::vector<std::string>::size_type i;
     std::pair<long, long> indices;
-    long i1, i2, i1w, i2w;
+    long i1, i2, i1w, i2w, nValues;
     double A, B, x0, x1, y0, y1, x0w, x1w;
     std::map<std::string, double >::const_iterator c_itSingle;
     std::map<std::string, std::vector<double> >::const_iterator c_it;
@@ -717,6 +717,12 @@ std::map<std::string, double> \
         }
         c_it = this->muPartialPhotoelectricEnergy.find(shell);
         y_it = this->muPartialPhotoelectricValue.find(shell);
+        nValues = (long) c_it->second.size();
+        if (nValues < 1)
+        {
+            // no coefficients given for this shell
+            continue;
+        }
         indices = this->getInterpolationIndices(c_it->second, energy);
         i1 = indices.first;
         i2 = indices.second;
@@ -776,19 +782,27 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while((i1w < nValues) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
-                        y0 = y_it->second[i1w];
-                        y1 = y_it->second[i2w];
-                        x0w = c_it->second[i1w];
-                        x1w = c_it->second[i2w];
-                        B = 1.0 / log( x1w / x0w);
-                        A = log(x1w/energy) * B;
-                        B *= log( energy / x0w);
-                        result[shell] = exp(A * log(y0) + B * log(y1));
+                        if (i2w < nValues)
+                        {
+                            y0 = y_it->second[i1w];
+                            y1 = y_it->second[i2w];
+                            x0w = c_it->second[i1w];
+                            x1w = c_it->second[i2w];
+                            B = 1.0 / log( x1w / x0w);
+                            A = log(x1w/energy) * B;
+                            B *= log( energy / x0w);
+                            result[shell] = exp(A * log(y0) + B * log(y1));
+                        }
+                        else if (i1w < nValues)
+                        {
+                            // a single tabulated value, nothing to extrapolate from
+                            result[shell] = y_it->second[i1w];
+                        }
                     }
                 }
             }
@@ -836,26 +850,33 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while((i1w < nValues) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
                     i2w = i1w + 1;
-                    x0w = c_it->second[i1w];
-                    x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if ((i2w + 1) < nValues)
                     {
-                        i1w += 1;
-                        i2w += 1;
+                        if ((c_it->second[i2w] - c_it->second[i1w]) < 1.0E-10)
+                        {
+                            i1w += 1;
+                            i2w += 1;
+                        }
+                    }
+                    if (i2w < nValues)
+                    {
+                        y0 = y_it->second[i1w];
+                        y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
                         x1w = c_it->second[i2w];
+                        result[shell] = exp(log(y0) + (log(y1 / y0) / log(x1w / x0w)) * log(energy/x0w));
+                    }
+                    else if (i1w < nValues)
+                    {
+                        // a single tabulated value, nothing to extrapolate from
+                        result[shell] = y_it->second[i1w];
                     }
-                    y0 = y_it->second[i1w];
-                    y1 = y_it->second[i2w];
-                    x0w = c_it->second[i1w];
-                    x1w = c_it->second[i2w];
-                    result[shell] = exp(log(y0) + (log(y1 / y0) / log(x1w / x0w)) * log(energy/x0w));
                     /*
                     if (energy == 15.19)
                     {
@@ -1570,6 +1591,14 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
     std::pair<long, long> result;
     std::vector<double>::const_iterator c_it;
 
+    if (vec.size() < 2)
+    {
+        // a single point
+        result.first = 0;
+        result.second = 0;
+        return result;
+    }
+
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
     if (c_it == vec.end())
-- 
2.43.0


From 722b7c965a66405636b82a9197a09adb3ce54e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:20 +0000
Subject: [PATCH 14/16] fix: shells bound below their tabulated cross sections
 do not read beyond the end of the table

---
 src/fisx_epdl97.cpp | 55 +++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 6330341..32745f3 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -365,7 +365,7 @@ const std::map<std::string, double> & EPDL97::getBindingEnergies(const int & z)
 std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int & z, const double & energy) const
 {
     std::pair<long, long> indices;
-    long i1, i2, i1w, i2w;
+    long i1, i2, i1w, i2w, nValues;
     double A, B, x0, x1, y0, y1, Aw, Bw, x0w, x1w;
     std::map<std::string, int>::const_iterator c_it;
     std::string key;
@@ -393,6 +393,7 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
     }
 
 
+    nValues = (long) this->muEnergy[zHelp].size();
     indices = this->getInterpolationIndices(this->muEnergy[zHelp], energy);
 
     i1 = indices.first;
@@ -468,19 +469,27 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while((i1w < nValues) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
-                                y0 = (*pVector)[i1w][idx];
-                                y1 = (*pVector)[i2w][idx];
-                                x0w = this->muEnergy[zHelp][i1w];
-                                x1w = this->muEnergy[zHelp][i2w];
-                                B = 1.0 / log( x1w / x0w);
-                                A = log(x1w/energy) * B;
-                                B *= log( energy / x0w);
-                                result[key] = exp(A * log(y0) + B * log(y1));
+                                if (i2w < nValues)
+                                {
+                                    y0 = (*pVector)[i1w][idx];
+                                    y1 = (*pVector)[i2w][idx];
+                                    x0w = this->muEnergy[zHelp][i1w];
+                                    x1w = this->muEnergy[zHelp][i2w];
+                                    B = 1.0 / log( x1w / x0w);
+                                    A = log(x1w/energy) * B;
+                                    B *= log( energy / x0w);
+                                    result[key] = exp(A * log(y0) + B * log(y1));
+                                }
+                                else if (i1w < nValues)
+                                {
+                                    // a single tabulated value, nothing to extrapolate from
+                                    result[key] = (*pVector)[i1w][idx];
+                                }
                             }
                         }
                     }
@@ -556,19 +565,27 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while((i1w < nValues) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
-                        y0 = (*pVector)[i1w][idx];
-                        y1 = (*pVector)[i2w][idx];
-                        x0w = this->muEnergy[zHelp][i1w];
-                        x1w = this->muEnergy[zHelp][i2w];
-                        Bw = 1.0 / log( x1w / x0w);
-                        Aw = log(x1w/energy) * Bw;
-                        Bw *= log( energy / x0w);
-                        result[key] = exp(Aw * log(y0) + Bw * log(y1));
+                        if (i2w < nValues)
+                        {
+                            y0 = (*pVector)[i1w][idx];
+                            y1 = (*pVector)[i2w][idx];
+                            x0w = this->muEnergy[zHelp][i1w];
+                            x1w = this->muEnergy[zHelp][i2w];
+                            Bw = 1.0 / log( x1w / x0w);
+                            Aw = log(x1w/energy) * Bw;
+                            Bw *= log( energy / x0w);
+                            result[key] = exp(Aw * log(y0) + Bw * log(y1));
+                        }
+                        else if (i1w < nValues)
+                        {
+                            // a single tabulated value, nothing to extrapolate from
+                            result[key] = (*pVector)[i1w][idx];
+                        }
                     }
                 }
             }
-- 
2.43.0


From a3f9a4f2cae1f2341addb062b0674861c4de9c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:20 +0000
Subject: [PATCH 15/16] fix: interpolation from a zero coefficient stays
 between the tabulated values

---
 src/fisx_element.cpp | 4 ++--
 src/fisx_epdl97.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 910b17b..44bbd08 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -436,7 +436,7 @@ std::map<std::string, double> Element::getMassAttenuationCoefficients(const doub
                 {
                     if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                     {
-                        result[key] = exp(B * log(y1));
+                        result[key] = y1 * (energy - x0) / (x1 - x0);
                     }
                     else
                     {
@@ -826,7 +826,7 @@ std::map<std::string, double> \
                 {
                     if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                     {
-                        result[shell] = exp(B * log(y1));
+                        result[shell] = y1 * (energy - x0) / (x1 - x0);
                     }
                     else
                     {
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 32745f3..e2af030 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -527,7 +527,7 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                 {
                     if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                     {
-                        result[key] = exp(B * log(y1));
+                        result[key] = y1 * (energy - x0) / (x1 - x0);
                     }
                     else
                     {
-- 
2.43.0


From 5a0f355f1800daab632f1203cdbd2eb2c497d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:41 +0000
Subject: [PATCH 16/16] fix: supplied mass attenuation coefficients are
 validated and shared among all the shells

---
 src/fisx_elements.cpp | 93 +++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 48 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 1fd04d4..cc9a696 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -762,7 +762,6 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     Element *element;
     std::vector<double> newEnergyGrid;
     std::vector<double>::size_type i, j, shellIndex;
-    std::vector<double> oldTotalPhotoelectric;
     std::string msg;
     std::string shell;
     double tmpDouble;
@@ -775,6 +774,24 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
         throw std::invalid_argument(msg);
     }
 
+    // check the input before modifying anything
+    if (energy.size() < 1)
+    {
+        throw std::invalid_argument("No energies supplied for element " + name);
+    }
+    if ((photoelectric.size() != energy.size()) || (coherent.size() != energy.size()) ||
+        (compton.size() != energy.size()) ||
+        ((pair.size() != energy.size()) && (pair.size() > 0)))
+    {
+        throw std::invalid_argument("Number of energies and of coefficients do not match for element " + name);
+    }
+    for (i = 1; i < energy.size(); i++)
+    {
+        if (energy[i] < energy[i - 1])
+        {
+            throw std::invalid_argument("Energies should be in ascending order for element " + name);
+        }
+    }
 
     this->clearEscapeCache();
 
@@ -807,7 +824,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) &&
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
@@ -866,7 +884,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                 }
             }
         }
-        if (j > 0)
+        if (i > 0)
         {
             if (newEnergyGrid[i] < newEnergyGrid[i - 1])
             {
@@ -922,17 +940,10 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // pair
     for (i = j; i < newEnergyGrid.size(); i++)
     {
-        massAttenuationCoefficients["pair"][i] = pair[i - j];
+        massAttenuationCoefficients["pair"][i] = (pair.size() > 0) ? pair[i - j] : 0.0;
     }
 
     // photoelectric
-    // we keep a copy of the old photoelectric
-    oldTotalPhotoelectric.resize(newEnergyGrid.size());
-    for (i = 0; i < newEnergyGrid.size(); i++)
-    {
-        oldTotalPhotoelectric[i] = massAttenuationCoefficients["photoelectric"][i];
-    }
-
     for (i = j; i < newEnergyGrid.size(); i++)
     {
         massAttenuationCoefficients["photoelectric"][i] = photoelectric[i - j];
@@ -945,54 +956,40 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     extractedEdgeEnergies = (*element).extractEdgeEnergiesFromMassAttenuationCoefficients(energy, \
                                                                                           photoelectric);
 
-    if (extractedEdgeEnergies.size() > 0)
+    for (shellIndex = 0; shellIndex < 10; shellIndex++)
     {
-        for (shellIndex = 0; shellIndex < 10; shellIndex++)
+        shell = shellList[shellIndex];
+        if (extractedEdgeEnergies.find(shell) != extractedEdgeEnergies.end())
         {
-            shell = shellList[shellIndex];
-            if (extractedEdgeEnergies.find(shell) != extractedEdgeEnergies.end())
+            // we have the index prior to starting to excite that shell but that index corresponds to
+            // the old, non extended, energy grid
+            idx = extractedEdgeEnergies[shell].second;
+            for (i = 0; i < (j + idx + 1); i++)
             {
-                // we have the index prior to starting to excite that shell but that index corresponds to
-                // the old, non extended, energy grid
-                idx = extractedEdgeEnergies[shell].second;
-                for (i = 0; i < (j + idx + 1); i++)
-                {
-                    massAttenuationCoefficients[shell][i] = 0.0;
-                }
-                for (i = (j + idx + 1); i < newEnergyGrid.size(); i++)
-                {
-                    tmpDouble = oldTotalPhotoelectric[i];
-                    if ( tmpDouble > 0)
-                    {
-                        tmpDouble = massAttenuationCoefficients[shell][i] / tmpDouble;
-                        massAttenuationCoefficients[shell][i] = photoelectric[i - j] * tmpDouble;
-                    }
-                    else
-                    {
-                        massAttenuationCoefficients[shell][i] = 0.0;
-                    }
-                }
+                massAttenuationCoefficients[shell][i] = 0.0;
             }
         }
     }
-    else
+
+    // all the shells have to share the supplied photoelectric mass attenuation coefficient
+    // in the same proportions as in EPDL97
+    for (i = j; i < newEnergyGrid.size(); i++)
     {
-        // blindly use EPDL97
+        tmpDouble = 0.0;
+        for (shellIndex = 0; shellIndex < 10; shellIndex++)
+        {
+            tmpDouble += massAttenuationCoefficients[shellList[shellIndex]][i];
+        }
         for (shellIndex = 0; shellIndex < 10; shellIndex++)
         {
             shell = shellList[shellIndex];
-            for (i = j; i < newEnergyGrid.size(); i++)
+            if (tmpDouble > 0)
             {
-                tmpDouble = oldTotalPhotoelectric[i];
-                if ( tmpDouble > 0)
-                {
-                    tmpDouble = massAttenuationCoefficients[shell][i] / tmpDouble;
-                    massAttenuationCoefficients[shell][i] = photoelectric[i - j] * tmpDouble;
-                }
-                else
-                {
-                    massAttenuationCoefficients[shell][i] = 0.0;
-                }
+                massAttenuationCoefficients[shell][i] *= photoelectric[i - j] / tmpDouble;
+            }
+            else
+            {
+                massAttenuationCoefficients[shell][i] = 0.0;
             }
         }
     }
-- 
2.43.0

