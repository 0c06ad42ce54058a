From c408d43127b286fe2dad35207890f1fa68954579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 01/30] fix: throw from CustomAllocator::allocate when memory
 is exhausted

The containers in concrete constraints dereferenced the null pointer that
the allocation function returns on failure.
---
 include/valijson/internal/custom_allocator.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..bd304ce 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -1,6 +1,10 @@
 #pragma once
 
+#include <cstddef>
 #include <limits>
+#include <new>
+
+#include <valijson/exceptions.hpp>
 
 namespace valijson {
 namespace internal {
@@ -67,7 +71,17 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void *ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+            // Containers assume that an allocator never returns a null pointer
+#if VALIJSON_USE_EXCEPTIONS
+            throw std::bad_alloc();
+#else
+            throwRuntimeError("Failed to allocate memory");
+#endif
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From 579ebf19a7560cf3377ea838024b9ac024f69b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 02/30] fix: do not leak an enum value when it cannot be stored

If the vector in EnumConstraint could not grow, the frozen copy of the
value was never released.
---
 include/valijson/constraints/concrete_constraints.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..409c848 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -16,6 +16,7 @@
 
 #include <limits>
 #include <map>
+#include <memory>
 #include <set>
 #include <string>
 #include <vector>
@@ -402,13 +403,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<const EnumValue> frozenValue(value.freeze());
+        m_enumValues.push_back(frozenValue.get());
+        frozenValue.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<const EnumValue> clonedValue(value.clone());
+        m_enumValues.push_back(clonedValue.get());
+        clonedValue.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 18f2ae151e2d898f1f228128596c56c0693f42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 03/30] fix: fetch and release every remote document exactly
 once

References at the root of a schema always fetched the document again, and
a second copy was never released. A document was not released either when
there was no memory left to store it in the document cache.
---
 include/valijson/schema_parser.hpp | 104 ++++++++++++++++-------------
 1 file changed, 57 insertions(+), 47 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..51fda2b 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -159,15 +159,65 @@ private:
      */
     template<typename AdapterType>
     void freeDocumentCache(const typename DocumentCache<AdapterType>::Type
-            &docCache, typename FunctionPtrs<AdapterType>::FreeDoc freeDoc)
+            &docCache, const typename FunctionPtrs<AdapterType>::FreeDoc &freeDoc)
     {
         typedef typename DocumentCache<AdapterType>::Type DocCacheType;
 
         for (const typename DocCacheType::value_type &v : docCache) {
-            freeDoc(v.second);
+            // Entries for documents that could not be fetched are empty
+            if (v.second) {
+                freeDoc(v.second);
+            }
         }
     }
 
+    /**
+     * @brief  Find a remote document in the cache, or fetch it
+     *
+     * The entry in the document cache is created before the document is
+     * fetched, so that a fetched document will always be released, even when
+     * there is no memory left for another cache entry.
+     *
+     * @param  docCache     collection of documents that have been fetched
+     * @param  documentUri  URI of the document
+     * @param  fetchDoc     function to fetch remote JSON documents (optional)
+     *
+     * @return  pointer to the document, owned by the cache
+     */
+    template<typename AdapterType>
+    const typename DocumentCache<AdapterType>::DocumentType * findOrFetchDocument(
+        typename DocumentCache<AdapterType>::Type &docCache,
+        const std::string &documentUri,
+        const typename FunctionPtrs<AdapterType>::FetchDoc &fetchDoc)
+    {
+        typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+
+        // Have we seen this document before?
+        typename DocumentCache<AdapterType>::Type::iterator docCacheItr = docCache.find(documentUri);
+        if (docCacheItr != docCache.end()) {
+            return docCacheItr->second;
+        }
+
+        if (!fetchDoc) {
+            throwRuntimeError("Fetching of remote JSON References not enabled.");
+        }
+
+        docCacheItr = docCache.insert(DocCacheValueType(documentUri, nullptr)).first;
+
+        // Returns a pointer to the remote document that was
+        // retrieved, or null if retrieval failed. This class
+        // will take ownership of the pointer, and call freeDoc
+        // when it is no longer needed.
+        docCacheItr->second = fetchDoc(documentUri);
+
+        // Can't proceed without the remote document
+        if (!docCacheItr->second) {
+            throwRuntimeError("Failed to fetch referenced schema document: " + documentUri);
+        }
+
+        return docCacheItr->second;
+    }
+
     /**
      * @brief  Find the complete URI for a document, within a resolution scope
      *
@@ -618,36 +668,9 @@ private:
                 return subschema;
             }
 
-            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = nullptr;
-
-            // Have we seen this document before?
-            typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
-                    docCache.find(*actualDocumentUri);
-            if (docCacheItr == docCache.end()) {
-                // Resolve reference against remote document
-                if (!fetchDoc) {
-                    throwRuntimeError("Fetching of remote JSON References not enabled.");
-                }
-
-                // Returns a pointer to the remote document that was
-                // retrieved, or null if retrieval failed. This class
-                // will take ownership of the pointer, and call freeDoc
-                // when it is no longer needed.
-                newDoc = fetchDoc(*actualDocumentUri);
-
-                // Can't proceed without the remote document
-                if (!newDoc) {
-                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-                }
-
-                typedef typename DocumentCache<AdapterType>::Type::value_type
-                        DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
-            } else {
-                newDoc = docCacheItr->second;
-            }
+            // Resolve reference against remote document
+            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc =
+                    findOrFetchDocument<AdapterType>(docCache, *actualDocumentUri, fetchDoc);
 
             const AdapterType newRootNode(*newDoc);
 
@@ -1265,21 +1288,8 @@ private:
             }
 
             // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
-
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
-
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
-
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
-
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+            const typename DocumentCache<AdapterType>::DocumentType *newDoc =
+                    findOrFetchDocument<AdapterType>(docCache, *actualDocumentUri, fetchDoc);
 
             const AdapterType newRootNode(*newDoc);
 
-- 
2.43.0


From e8c354343ef2629c3707137aaed816f628aee3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 04/30] fix: detect reference cycles at the root and across
 documents

A schema whose root is part of a cycle that consists of references only,
or a nested reference into such a cycle across remote documents, recursed
until the stack overflowed.
---
 include/valijson/schema_parser.hpp | 47 +++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 51fda2b..eaaf072 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -121,8 +121,9 @@ public:
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
+            std::vector<std::string> visitedKeys;
             resolveThenPopulateSchema(schema, node, node, schema, std::optional<std::string>(), "", fetchDoc, nullptr,
-                    nullptr, docCache, schemaRegistry);
+                    nullptr, docCache, schemaRegistry, visitedKeys);
 #if VALIJSON_USE_EXCEPTIONS
         } catch (...) {
             freeDocumentCache<AdapterType>(docCache, freeDoc);
@@ -637,6 +638,10 @@ private:
             return registeredPtr;
         }
 
+        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
+            throwRuntimeError("found cycle while resolving JSON reference");
+        }
+
         if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
@@ -689,10 +694,6 @@ private:
 
         }
 
-        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
-            throwRuntimeError("found cycle while resolving JSON reference");
-        }
-
         // JSON References in nested schema will be resolved relative to the
         // current document
         const AdapterType &referencedAdapter =
@@ -1190,6 +1191,21 @@ private:
         }
     }
 
+    /**
+     * @brief  Add a reference to the list of references that were followed
+     *
+     * Following the same reference twice means that there is no concrete node
+     * at the end of a chain of references.
+     */
+    static void addVisitedKey(std::vector<std::string> &visitedKeys, const std::string &key)
+    {
+        if (std::find(visitedKeys.begin(), visitedKeys.end(), key) != visitedKeys.end()) {
+            throwRuntimeError("found cycle while resolving JSON reference");
+        }
+
+        visitedKeys.push_back(key);
+    }
+
     /**
      * @brief  Resolves a chain of JSON References before populating a schema
      *
@@ -1214,6 +1230,8 @@ private:
      *                        the 'required' keyword in Draft 3
      * @param  docCache       Cache of resolved and fetched remote documents
      * @param  schemaRegistry Registry of populated schemas
+     * @param  visitedKeys    A list of the references to other schemas that
+     *                        have been followed
      */
     template<typename AdapterType>
     void resolveThenPopulateSchema(
@@ -1227,7 +1245,8 @@ private:
         const Subschema *parentSchema,
         const std::string *ownName,
         typename DocumentCache<AdapterType>::Type &docCache,
-        SchemaRegistry &schemaRegistry)
+        SchemaRegistry &schemaRegistry,
+        std::vector<std::string> &visitedKeys)
     {
         std::string jsonRef;
         if (!extractJsonReference(node, jsonRef)) {
@@ -1259,10 +1278,12 @@ private:
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
 
+                addVisitedKey(visitedKeys, idRef);
+
                 resolveThenPopulateSchema(rootSchema, registeredRoot,
                         registeredRoot, subschema, registeredScope,
                         "", fetchDoc, parentSchema, ownName,
-                        docCache, schemaRegistry);
+                        docCache, schemaRegistry, visitedKeys);
                 return;
             }
         }
@@ -1280,13 +1301,17 @@ private:
                         : internal::json_pointer::resolveJsonPointerStrict(
                                 registeredRoot, actualJsonPointer);
 
+                addVisitedKey(visitedKeys, *actualDocumentUri + "#" + actualJsonPointer);
+
                 resolveThenPopulateSchema(rootSchema, registeredRoot,
                         referencedAdapter, subschema, registeredScope,
                         actualJsonPointer, fetchDoc,
-                        parentSchema, ownName, docCache, schemaRegistry);
+                        parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
                 return;
             }
 
+            addVisitedKey(visitedKeys, *actualDocumentUri + "#" + actualJsonPointer);
+
             // Resolve reference against remote document
             const typename DocumentCache<AdapterType>::DocumentType *newDoc =
                     findOrFetchDocument<AdapterType>(docCache, *actualDocumentUri, fetchDoc);
@@ -1296,12 +1321,12 @@ private:
             const AdapterType &referencedAdapter =
                 internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
 
-            // TODO: Need to detect degenerate circular references
             resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
                     subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
+                    parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
 
         } else if (!actualJsonPointer.empty()) {
+            // TODO: Need to detect degenerate circular references
             const AdapterType &referencedAdapter =
                     internal::json_pointer::resolveJsonPointerStrict(rootNode, actualJsonPointer);
 
@@ -1311,7 +1336,7 @@ private:
 
             resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
                     subschema, referencedScope, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
+                    parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
         } else {
             throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
         }
-- 
2.43.0


From 30aede551b9002eca58b8301f2180f0d79ca9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 05/30] fix: follow references from schemas that are found by
 their id

If a reference was resolved to an embedded schema by its id, and the target
was itself a reference, that reference was ignored and the subschema
accepted every value.
---
 include/valijson/schema_parser.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index eaaf072..655e03d 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -618,6 +618,17 @@ private:
                     return registeredPtr;
                 }
 
+                if (extractJsonReference(registeredRoot, jsonRef)) {
+                    if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), idRef) != newRegistryKeys.end()) {
+                        throwRuntimeError("found cycle while resolving JSON reference");
+                    }
+
+                    newRegistryKeys.push_back(idRef);
+                    return makeOrReuseSchema(rootSchema, registeredRoot, registeredRoot,
+                            registeredScope, "", fetchDoc, parentSubschema,
+                            ownName, docCache, schemaRegistry, newRegistryKeys);
+                }
+
                 const Subschema *subschema = rootSchema.createSubschema();
                 newRegistryKeys.push_back(idRef);
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
@@ -661,6 +672,13 @@ private:
                             actualJsonPointer, "", referencedScope);
                 }
 
+                if (extractJsonReference(referencedAdapter, jsonRef)) {
+                    newRegistryKeys.push_back(queryKey);
+                    return makeOrReuseSchema(rootSchema, registeredRoot, referencedAdapter,
+                            referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
+                            ownName, docCache, schemaRegistry, newRegistryKeys);
+                }
+
                 const Subschema *subschema = rootSchema.createSubschema();
                 newRegistryKeys.push_back(queryKey);
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
-- 
2.43.0


From 5885987c921440d334217fcb85bb900eb021af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 06/30] fix: give every subschema its own key in the schema
 registry

The schema of propertyNames shared the key of its parent, so that it was
replaced by the parent or the other way round, unless at the root of a
schema without id. Property names were not escaped, and a document URI was
joined with a JSON Pointer without a separator.
---
 include/valijson/schema_parser.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 655e03d..d414612 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -342,6 +342,23 @@ private:
         return result;
     }
 
+    /**
+     * @brief  Construct the key of a schema in the schema registry
+     *
+     * The separator keeps nodes within one document apart from documents that
+     * have a longer URI.
+     */
+    static std::string makeRegistryKey(
+            const std::optional<std::string> &scope,
+            const std::string &path)
+    {
+        if (!scope) {
+            return path;
+        }
+
+        return path.empty() ? *scope : *scope + "#" + path;
+    }
+
     const char *idKeyword() const
     {
         return m_version == kDraft7 ? "$id" : "id";
@@ -554,7 +571,7 @@ private:
 
             // Construct a key that we can use to search the schema registry for
             // a schema corresponding to the current node
-            const std::string schemaRegistryKey = currentScope ? (*currentScope + nodePath) : nodePath;
+            const std::string schemaRegistryKey = makeRegistryKey(currentScope, nodePath);
 
             // Retrieve an existing schema from the registry if possible
             const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, schemaRegistryKey);
@@ -598,7 +615,7 @@ private:
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
         // Construct a key to search the schema registry for an existing schema
-        const std::string queryKey = actualDocumentUri ? (*actualDocumentUri + actualJsonPointer) : actualJsonPointer;
+        const std::string queryKey = makeRegistryKey(actualDocumentUri, actualJsonPointer);
 
         if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
             const std::string idRef = actualDocumentUri ?
@@ -1152,7 +1169,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
@@ -2424,7 +2441,7 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" + escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2437,7 +2454,7 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" + escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From f3b1ff0ea8398430f258bf0b0d6b5c645db29b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 07/30] fix: keep references to the root valid when a schema is
 moved

A reference to the id of the root schema was resolved to the address of the
Schema object itself, which dangles once the schema has been moved.
---
 include/valijson/schema_parser.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index d414612..c19f95c 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -878,7 +878,19 @@ private:
         }
 
         if (foundId && updatedScope) {
-            schemaRegistry.emplace(*updatedScope, &subschema);
+            if (&subschema == rootSchema.root()) {
+                // The address of the root changes when a Schema is moved, so
+                // constraints have to refer to another subschema instead
+                const Subschema *rootCopy = rootSchema.createSubschema();
+                if (schemaRegistry.emplace(*updatedScope, rootCopy).second) {
+                    populateSchema(rootSchema, rootNode, node, *rootCopy,
+                            currentScope, nodePath, fetchDoc,
+                            parentSubschema, ownName, docCache,
+                            schemaRegistry);
+                }
+            } else {
+                schemaRegistry.emplace(*updatedScope, &subschema);
+            }
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
-- 
2.43.0


From 067ca4700f9b14881ad0c0864c1b3c176f69233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 08/30] fix: do not allocate memory for RapidJSON assertions
 that hold

RapidJSON makes assertions in noexcept functions, so that the process was
terminated when the string for the file name could not be allocated.
---
 include/valijson/adapters/rapidjson_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..742fd50 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -51,12 +51,12 @@
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
     #else
         template<typename T>
-        T rapidjson_assert(T t, const std::string& file, const int line) {
+        T rapidjson_assert(T t, const char *file, const int line) {
           if (t) {
             return t;
           }
 
-          throw std::runtime_error("assertion failed; file: " + file + "; line: " + std::to_string(line));
+          throw std::runtime_error(std::string("assertion failed; file: ") + file + "; line: " + std::to_string(line));
         }
 
         #define RAPIDJSON_ASSERT(x) rapidjson_assert(x, __FILE__, __LINE__)
-- 
2.43.0


From 84fc07885282c2fa706166ac4288c86df28bd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 09/30] fix: resolve nested references in the scope of the
 document they occur in

The scope of a node that a reference leads to was wrong if the reference
contains %-encoded characters, leads into a document that is found by its
identifier or into a remote document with identifiers of its own. Relative
references below that node were then resolved to another document.
---
 include/valijson/schema_parser.hpp | 51 +++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index c19f95c..823d19d 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -342,6 +342,25 @@ private:
         return result;
     }
 
+    /**
+     * @brief  Bring a JSON Pointer taken from a URI into the form that is used
+     *         for node paths, i.e. without %-encoded characters
+     */
+    static std::string normaliseJsonPointer(const std::string &jsonPointer)
+    {
+        std::string result;
+        std::string::const_iterator itr = jsonPointer.begin();
+        while (itr != jsonPointer.end()) {
+            const std::string::const_iterator next =
+                    std::find(itr + 1, jsonPointer.end(), '/');
+            result += "/" + escapeJsonPointerToken(
+                    internal::json_pointer::extractReferenceToken(itr + 1, next));
+            itr = next;
+        }
+
+        return result;
+    }
+
     /**
      * @brief  Construct the key of a schema in the schema registry
      *
@@ -686,7 +705,8 @@ private:
                 std::optional<std::string> referencedScope = registeredScope;
                 if (!actualJsonPointer.empty()) {
                     findScopeForPath(registeredRoot, registeredScope,
-                            actualJsonPointer, "", referencedScope);
+                            normaliseJsonPointer(actualJsonPointer), "",
+                            referencedScope);
                 }
 
                 if (extractJsonReference(referencedAdapter, jsonRef)) {
@@ -721,10 +741,14 @@ private:
 
             newRegistryKeys.push_back(queryKey);
 
+            std::optional<std::string> referencedScope = actualDocumentUri;
+            findScopeForPath(newRootNode, actualDocumentUri,
+                    normaliseJsonPointer(actualJsonPointer), "", referencedScope);
+
             // Populate the schema, starting from the referenced node, with
             // nested JSON References resolved relative to the new root node
             return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
-                    actualDocumentUri, actualJsonPointer, fetchDoc, parentSubschema,
+                    referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
                     ownName, docCache, schemaRegistry, newRegistryKeys);
 
         }
@@ -738,8 +762,8 @@ private:
         newRegistryKeys.push_back(queryKey);
 
         std::optional<std::string> referencedScope = currentScope;
-        findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                referencedScope);
+        findScopeForPath(rootNode, currentScope,
+                normaliseJsonPointer(actualJsonPointer), "", referencedScope);
 
         // Populate the schema, starting from the referenced node, with
         // nested JSON References resolved relative to the new root node
@@ -1348,10 +1372,17 @@ private:
                         : internal::json_pointer::resolveJsonPointerStrict(
                                 registeredRoot, actualJsonPointer);
 
+                std::optional<std::string> referencedScope = registeredScope;
+                if (!actualJsonPointer.empty()) {
+                    findScopeForPath(registeredRoot, registeredScope,
+                            normaliseJsonPointer(actualJsonPointer), "",
+                            referencedScope);
+                }
+
                 addVisitedKey(visitedKeys, *actualDocumentUri + "#" + actualJsonPointer);
 
                 resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        referencedAdapter, subschema, registeredScope,
+                        referencedAdapter, subschema, referencedScope,
                         actualJsonPointer, fetchDoc,
                         parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
                 return;
@@ -1368,8 +1399,12 @@ private:
             const AdapterType &referencedAdapter =
                 internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
 
+            std::optional<std::string> referencedScope = actualDocumentUri;
+            findScopeForPath(newRootNode, actualDocumentUri,
+                    normaliseJsonPointer(actualJsonPointer), "", referencedScope);
+
             resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
-                    subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
+                    subschema, referencedScope, actualJsonPointer, fetchDoc,
                     parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
 
         } else if (!actualJsonPointer.empty()) {
@@ -1378,8 +1413,8 @@ private:
                     internal::json_pointer::resolveJsonPointerStrict(rootNode, actualJsonPointer);
 
             std::optional<std::string> referencedScope = currentScope;
-            findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                    referencedScope);
+            findScopeForPath(rootNode, currentScope,
+                    normaliseJsonPointer(actualJsonPointer), "", referencedScope);
 
             resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
                     subschema, referencedScope, actualJsonPointer, fetchDoc,
-- 
2.43.0


From 42caad75a35d6d8d4cdb74410a3057d710754579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 10/30] fix: find embedded schemas that are referred to by
 their own URI

---
 include/valijson/schema_parser.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 823d19d..ae956e3 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -689,7 +689,12 @@ private:
             throwRuntimeError("found cycle while resolving JSON reference");
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
+        // A reference that names the document it occurs in may still refer to a
+        // schema that has been embedded in the current document
+        const bool otherDocument = actualDocumentUri &&
+                (!currentScope || *actualDocumentUri != *currentScope);
+
+        if (otherDocument || documentUri) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
             if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
@@ -727,7 +732,9 @@ private:
 
                 return subschema;
             }
+        }
 
+        if (otherDocument) {
             // Resolve reference against remote document
             const typename FunctionPtrs<AdapterType>::DocumentType *newDoc =
                     findOrFetchDocument<AdapterType>(docCache, *actualDocumentUri, fetchDoc);
@@ -1359,7 +1366,12 @@ private:
             }
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
+        // A reference that names the document it occurs in may still refer to a
+        // schema that has been embedded in the current document
+        const bool otherDocument = actualDocumentUri &&
+                (!currentScope || *actualDocumentUri != *currentScope);
+
+        if (otherDocument || documentUri) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
             if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
@@ -1387,7 +1399,9 @@ private:
                         parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
                 return;
             }
+        }
 
+        if (otherDocument) {
             addVisitedKey(visitedKeys, *actualDocumentUri + "#" + actualJsonPointer);
 
             // Resolve reference against remote document
-- 
2.43.0


From 596ec045f2532c29712612ece33511ac9ba17f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 11/30] fix: copy nested values when freezing Poco values

---
 .../valijson/adapters/poco_json_adapter.hpp   | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..9fc4b96 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -220,7 +220,7 @@ public:
     * @param  source  the PocoJson value to be copied
     */
     explicit PocoJsonFrozenValue(const Poco::Dynamic::Var &source)
-        : m_value(source)
+        : m_value(deepCopy(source))
     { }
 
     virtual FrozenValue * clone() const
@@ -232,6 +232,35 @@ public:
 
 private:
 
+    /**
+    * @brief  Copy a PocoJson value, including nested arrays and objects
+    *
+    * Arrays and objects are held by shared pointers, so that copying only the
+    * value would leave them shared with the source document.
+    */
+    static Poco::Dynamic::Var deepCopy(const Poco::Dynamic::Var &source)
+    {
+        if (source.type() == typeid(Poco::JSON::Array::Ptr)) {
+            const Poco::JSON::Array::Ptr &array = source.extract<Poco::JSON::Array::Ptr>();
+            Poco::JSON::Array::Ptr copy = new Poco::JSON::Array();
+            for (const Poco::Dynamic::Var &value : *array) {
+                copy->add(deepCopy(value));
+            }
+
+            return copy;
+        } else if (source.type() == typeid(Poco::JSON::Object::Ptr)) {
+            const Poco::JSON::Object::Ptr &object = source.extract<Poco::JSON::Object::Ptr>();
+            Poco::JSON::Object::Ptr copy = new Poco::JSON::Object();
+            for (const auto &member : *object) {
+                copy->set(member.first, deepCopy(member.second));
+            }
+
+            return copy;
+        }
+
+        return source;
+    }
+
     /// Stored PocoJson value
     Poco::Dynamic::Var m_value;
 };
-- 
2.43.0


From e5c1e28558bf5f7ec038eb4b56df480de2742922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 12/30] fix: reject array indices that are not numbers in JSON
 Pointers

---
 include/valijson/internal/json_pointer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..9aedded 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -196,6 +196,12 @@ inline AdapterType resolveJsonPointer(
         try {
 #endif
             // Fragment must be non-negative integer
+            if (referenceToken.find_first_not_of("0123456789") != std::string::npos) {
+                throwRuntimeError("Expected reference token to contain a "
+                        "non-negative integer to identify an element in the "
+                        "current array; actual token: " + referenceToken);
+            }
+
             const uint64_t index = std::stoul(referenceToken);
             typedef typename AdapterType::Array Array;
             const Array arr = node.asArray();
-- 
2.43.0


From 5576e9fcbf14a19afb98235a506a4db8564f4ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 13/30] fix: report read errors from loadFile instead of
 throwing or truncating

---
 include/valijson/utils/file_utils.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/valijson/utils/file_utils.hpp b/include/valijson/utils/file_utils.hpp
index 92757cf..f048423 100644
--- a/include/valijson/utils/file_utils.hpp
+++ b/include/valijson/utils/file_utils.hpp
@@ -32,12 +32,17 @@ inline bool loadFile(const std::string &path, std::string &dest)
     dest.clear();
     dest.reserve(static_cast<unsigned int>(offset));
 
-    // Assign file contents to destination string
+    // Copy file contents to destination string. Unlike stream buffer iterators,
+    // read() reports a failure via the state of the stream
     file.seekg(0, std::ios::beg);
-    dest.assign(std::istreambuf_iterator<char>(file),
-                std::istreambuf_iterator<char>());
+    char buffer[4096];
+    while (file.good()) {
+        file.read(buffer, sizeof(buffer));
+        dest.append(buffer, static_cast<size_t>(file.gcount()));
+    }
 
-    return true;
+    // Anything that ended the loop before the end of the file is an error
+    return file.eof() && !file.bad();
 }
 
 }  // namespace utils
-- 
2.43.0


From d7dcd61c135903b505e0e2579228da2d1f33ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 14/30] fix: return false when nlohmann::json cannot parse a
 file

---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..793827a 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (std::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From afbac99c6c9677e97596ef682d23dec0d83d6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 15/30] fix: do not throw when reporting an early RapidJSON
 parse error

---
 include/valijson/utils/rapidjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..2a15130 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -28,7 +28,7 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            std::cerr << "Near: " << file.substr((std::max)(size_t(20), document.GetErrorOffset()) - 20, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From 875bd2aa96d842f1c8da21745c8f7d4f3923d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 16/30] fix: refuse trailing content and deep nesting in
 JsonCpp files

---
 include/valijson/utils/jsoncpp_utils.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/valijson/utils/jsoncpp_utils.hpp b/include/valijson/utils/jsoncpp_utils.hpp
index 49a43b6..c6db5bd 100644
--- a/include/valijson/utils/jsoncpp_utils.hpp
+++ b/include/valijson/utils/jsoncpp_utils.hpp
@@ -7,6 +7,7 @@
 #include <json/json.h>
 
 #include <valijson/utils/file_utils.hpp>
+#include <valijson/exceptions.hpp>
 
 namespace valijson {
 namespace utils {
@@ -22,12 +23,23 @@ inline bool loadDocument(const std::string &path, Json::Value &document)
 
     const auto fileLength = static_cast<int>(file.length());
     Json::CharReaderBuilder builder;
+    builder["failIfExtra"] = true;
     const std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
     std::string err;
-    if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
-        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
+            std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+            return false;
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (const std::exception &e) {
+        // Thrown when a document is nested too deeply
+        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << e.what() << std::endl;
         return false;
     }
+#endif
     return true;
 }
 
-- 
2.43.0


From 6dc69e5602d11e6f6ee68a9ea9e5c45e4f4d4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 17/30] fix: refuse trailing content in PicoJSON files

---
 include/valijson/utils/picojson_utils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/picojson_utils.hpp b/include/valijson/utils/picojson_utils.hpp
index 36420d2..57a02ea 100644
--- a/include/valijson/utils/picojson_utils.hpp
+++ b/include/valijson/utils/picojson_utils.hpp
@@ -25,7 +25,11 @@ inline bool loadDocument(const std::string &path, picojson::value &document)
     }
 
     // Parse schema
-    std::string err = picojson::parse(document, file);
+    std::string err;
+    const auto end = picojson::parse(document, file.cbegin(), file.cend(), &err);
+    if (err.empty() && file.find_first_not_of(" \t\r\n", static_cast<size_t>(end - file.cbegin())) != std::string::npos) {
+        err = "unexpected content after the end of the document";
+    }
     if (!err.empty()) {
         std::cerr << "PicoJson failed to parse the document:" << std::endl
                   << "Parse error: " << err << std::endl;
-- 
2.43.0


From 187edd7f8cce8faf5fdab6bd882fb0ac92521931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 18/30] fix: report read errors and all parse errors for YAML
 files

---
 include/valijson/utils/yaml_cpp_utils.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/valijson/utils/yaml_cpp_utils.hpp b/include/valijson/utils/yaml_cpp_utils.hpp
index 6c93800..4c93cf4 100644
--- a/include/valijson/utils/yaml_cpp_utils.hpp
+++ b/include/valijson/utils/yaml_cpp_utils.hpp
@@ -13,13 +13,18 @@ namespace utils {
 
 inline bool loadDocument(const std::string &path, YAML::Node &document)
 {
-    try {
-        document = YAML::LoadFile(path);
-        return true;
-    } catch (const YAML::BadFile &ex) {
+    // Load schema YAML from file
+    std::string file;
+    if (!loadFile(path, file)) {
         std::cerr << "Failed to load YAML from file '" << path << "'." << std::endl;
         return false;
-    } catch (const YAML::ParserException &ex) {
+    }
+
+    // Parse schema
+    try {
+        document = YAML::Load(file);
+        return true;
+    } catch (const YAML::Exception &ex) {
         std::cout << "yaml-cpp failed to parse the document '" << ex.what() << std::endl;
         return false;
     }
-- 
2.43.0


From 53e8748a7f79f44b301781f8f655d15b72b07b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 19/30] fix: refuse files with null characters instead of
 ignoring the rest

---
 include/valijson/utils/jsoncpp_utils.hpp       | 8 ++++++++
 include/valijson/utils/nlohmann_json_utils.hpp | 8 ++++++++
 include/valijson/utils/rapidjson_utils.hpp     | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/include/valijson/utils/jsoncpp_utils.hpp b/include/valijson/utils/jsoncpp_utils.hpp
index c6db5bd..3dd3537 100644
--- a/include/valijson/utils/jsoncpp_utils.hpp
+++ b/include/valijson/utils/jsoncpp_utils.hpp
@@ -21,6 +21,14 @@ inline bool loadDocument(const std::string &path, Json::Value &document)
         return false;
     }
 
+    // The parser would take a null character for the end of the document, and
+    // ignore everything that follows
+    if (file.find('\0') != std::string::npos) {
+        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl
+                  << "Parse error: unexpected null character" << std::endl;
+        return false;
+    }
+
     const auto fileLength = static_cast<int>(file.length());
     Json::CharReaderBuilder builder;
     builder["failIfExtra"] = true;
diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 793827a..05b8bd9 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -19,6 +19,14 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
         return false;
     }
 
+    // The parser would take a null character for the end of the document, and
+    // ignore everything that follows
+    if (file.find('\0') != std::string::npos) {
+        std::cerr << "nlohmann::json failed to parse the document:" << std::endl
+                  << "Parse error: unexpected null character" << std::endl;
+        return false;
+    }
+
     // Parse schema
 #if VALIJSON_USE_EXCEPTIONS
     try {
diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2a15130..f8d122f 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -20,6 +20,14 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         return false;
     }
 
+    // The parser would take a null character for the end of the document, and
+    // ignore everything that follows
+    if (file.find('\0') != std::string::npos) {
+        std::cerr << "RapidJson failed to parse the document:" << std::endl
+                  << "Parse error: unexpected null character" << std::endl;
+        return false;
+    }
+
     // Parse schema
 #if VALIJSON_USE_EXCEPTIONS
     try {
-- 
2.43.0


From 600a936ebf83e02a6cb9bfde24683b2a37beef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 20/30] fix: report read errors when loading files with Qt

---
 include/valijson/utils/qtjson_utils.hpp   | 6 +++++-
 include/valijson/utils/qvariant_utils.hpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/qtjson_utils.hpp b/include/valijson/utils/qtjson_utils.hpp
index c05b0f0..c8e6ba9 100644
--- a/include/valijson/utils/qtjson_utils.hpp
+++ b/include/valijson/utils/qtjson_utils.hpp
@@ -21,10 +21,14 @@ inline bool loadDocument(const std::string &path, QJsonValue &root)
     }
 
     QByteArray data = file.readAll();
+    if (file.error() != QFile::NoError) {
+        std::cerr << "Failed to load json from file '" << path << "'." << std::endl;
+        return false;
+    }
 
     // Parse schema
     QJsonParseError parseError;
-    QJsonDocument doc = QJsonDocument::fromJson(data);
+    QJsonDocument doc = QJsonDocument::fromJson(data, &parseError);
     if (doc.isNull()) {
         std::cerr << "qt failed to parse the document:" << std::endl
                   << parseError.errorString().toStdString() << std::endl;
diff --git a/include/valijson/utils/qvariant_utils.hpp b/include/valijson/utils/qvariant_utils.hpp
index 6b36573..8d606e6 100644
--- a/include/valijson/utils/qvariant_utils.hpp
+++ b/include/valijson/utils/qvariant_utils.hpp
@@ -22,6 +22,10 @@ inline bool loadDocument(const std::string &path, QVariant &root)
     }
 
     QByteArray data = file.readAll();
+    if (file.error() != QFile::NoError) {
+        std::cerr << "Failed to load json from file '" << path << "'." << std::endl;
+        return false;
+    }
 
     // Parse schema
     QJsonParseError parseError;
-- 
2.43.0


From 57abc6ad5568e4ec20b0ab4d37af0ea31b1791a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 21/30] fix: refuse files that Qt could only read in part

---
 include/valijson/utils/qtjson_utils.hpp   | 2 +-
 include/valijson/utils/qvariant_utils.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/utils/qtjson_utils.hpp b/include/valijson/utils/qtjson_utils.hpp
index c8e6ba9..c609ac6 100644
--- a/include/valijson/utils/qtjson_utils.hpp
+++ b/include/valijson/utils/qtjson_utils.hpp
@@ -21,7 +21,7 @@ inline bool loadDocument(const std::string &path, QJsonValue &root)
     }
 
     QByteArray data = file.readAll();
-    if (file.error() != QFile::NoError) {
+    if (file.error() != QFile::NoError || data.size() < file.size()) {
         std::cerr << "Failed to load json from file '" << path << "'." << std::endl;
         return false;
     }
diff --git a/include/valijson/utils/qvariant_utils.hpp b/include/valijson/utils/qvariant_utils.hpp
index 8d606e6..2cce259 100644
--- a/include/valijson/utils/qvariant_utils.hpp
+++ b/include/valijson/utils/qvariant_utils.hpp
@@ -22,7 +22,7 @@ inline bool loadDocument(const std::string &path, QVariant &root)
     }
 
     QByteArray data = file.readAll();
-    if (file.error() != QFile::NoError) {
+    if (file.error() != QFile::NoError || data.size() < file.size()) {
         std::cerr << "Failed to load json from file '" << path << "'." << std::endl;
         return false;
     }
-- 
2.43.0


From 67fda28f54c209206f520d536c92b0815e4ab540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 22/30] fix: parse integers independently of the global locale

In weakly typed documents, a text was converted to an integer with the
grouping rules of the global C++ locale, so that "1.234" was an integer
in German programs only.
---
 include/valijson/adapters/std_string_adapter.hpp | 3 +++
 include/valijson/internal/basic_adapter.hpp      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..585ad9d 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <locale>
+#include <sstream>
 #include <string>
 
 #include <valijson/internal/adapter.hpp>
@@ -322,6 +324,7 @@ public:
     bool maybeInteger() const override
     {
         std::istringstream i(m_value);
+        i.imbue(std::locale::classic());
         int64_t x;
         char c;
         if (!(i >> x) || i.get(c)) {
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..b4658ba 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <cstdint>
 #include <limits>
+#include <locale>
 #include <optional>
 #include <sstream>
 
@@ -411,6 +412,7 @@ public:
             std::string s;
             if (m_value.getString(s)) {
                 std::istringstream i(s);
+                i.imbue(std::locale::classic());
                 int64_t x;
                 char c;
                 if (!(!(i >> x) || i.get(c))) {
@@ -817,6 +819,7 @@ public:
             std::string s;
             if (m_value.getString(s)) {
                 std::istringstream i(s);
+                i.imbue(std::locale::classic());
                 int64_t x;
                 char c;
                 if (!(i >> x) || i.get(c)) {
-- 
2.43.0


From 34a0ac7c1269d98b26ab3b1276a574c6e7332139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 23/30] fix: format numbers independently of the process locale

std::to_string uses the decimal point of the C locale, which showed in
error messages and in the text form of numbers with weak typing.
---
 include/valijson/internal/basic_adapter.hpp |  2 +-
 include/valijson/internal/double_parser.hpp | 16 ++++++++++++++++
 include/valijson/validation_visitor.hpp     | 17 +++++++++--------
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index b4658ba..3353cb3 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -500,7 +500,7 @@ public:
         } else if (m_value.isDouble()) {
             double doubleValue;
             if (m_value.getDouble(doubleValue)) {
-                result = std::to_string(doubleValue);
+                result = internal::formatDouble(doubleValue);
                 return true;
             }
         }
diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 5ba9118..0bb8f7c 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <ios>
 #include <locale>
 #include <sstream>
 #include <string>
@@ -78,5 +79,20 @@ inline bool parseDouble(const std::string &input, double &result)
     return true;
 }
 
+/**
+ * @brief   Convert a double value to a string
+ *
+ * The result is that of std::to_string in the classic locale, whatever the
+ * locale of the process is.
+ */
+inline std::string formatDouble(double value)
+{
+    std::ostringstream stream;
+    stream.exceptions(std::ios_base::badbit);
+    stream.imbue(std::locale::classic());
+    stream << std::fixed << value;
+    return stream.str();
+}
+
 } // namespace internal
 } // namespace valijson
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..352315d 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -8,6 +8,7 @@
 #include <unordered_map>
 #include <utility>
 
+#include <valijson/internal/double_parser.hpp>
 #include <valijson/internal/regex.hpp>
 #include <valijson/adapters/std_string_adapter.hpp>
 #include <valijson/constraints/concrete_constraints.hpp>
@@ -639,7 +640,7 @@ public:
         if (constraint.getExclusiveMaximum()) {
             if (m_target.asDouble() >= maximum) {
                 if (m_results) {
-                    m_results->pushError(m_path, "Expected number less than " + std::to_string(maximum));
+                    m_results->pushError(m_path, "Expected number less than " + internal::formatDouble(maximum));
                 }
 
                 return false;
@@ -647,7 +648,7 @@ public:
 
         } else if (m_target.asDouble() > maximum) {
             if (m_results) {
-                m_results->pushError(m_path, "Expected number less than or equal to " + std::to_string(maximum));
+                m_results->pushError(m_path, "Expected number less than or equal to " + internal::formatDouble(maximum));
             }
 
             return false;
@@ -756,14 +757,14 @@ public:
         if (constraint.getExclusiveMinimum()) {
             if (m_target.asDouble() <= minimum) {
                 if (m_results) {
-                    m_results->pushError(m_path, "Expected number greater than " + std::to_string(minimum));
+                    m_results->pushError(m_path, "Expected number greater than " + internal::formatDouble(minimum));
                 }
 
                 return false;
             }
         } else if (m_target.asDouble() < minimum) {
             if (m_results) {
-                m_results->pushError(m_path, "Expected number greater than or equal to " + std::to_string(minimum));
+                m_results->pushError(m_path, "Expected number greater than or equal to " + internal::formatDouble(minimum));
             }
 
             return false;
@@ -869,7 +870,7 @@ public:
             if (!m_target.asDouble(d)) {
                 if (m_results) {
                     m_results->pushError(m_path, "Value could not be converted "
-                            "to a number to check if it is a multiple of " + std::to_string(divisor));
+                            "to a number to check if it is a multiple of " + internal::formatDouble(divisor));
                 }
                 return false;
             }
@@ -878,7 +879,7 @@ public:
             if (!m_target.asInteger(i)) {
                 if (m_results) {
                     m_results->pushError(m_path, "Value could not be converted "
-                            "to a number to check if it is a multiple of " + std::to_string(divisor));
+                            "to a number to check if it is a multiple of " + internal::formatDouble(divisor));
                 }
                 return false;
             }
@@ -904,7 +905,7 @@ public:
         const double quotient = d / divisor;
         if (!std::isfinite(quotient)) {
             if (m_results) {
-                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+                m_results->pushError(m_path, "Value should be a multiple of " + internal::formatDouble(divisor));
             }
             return false;
         }
@@ -916,7 +917,7 @@ public:
 
         if (diff > tolerance) {
             if (m_results) {
-                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+                m_results->pushError(m_path, "Value should be a multiple of " + internal::formatDouble(divisor));
             }
             return false;
         }
-- 
2.43.0


From 024bfe84d6b4b1e23d053dd84116c29c52e17ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 24/30] fix: match patterns independently of the global locale

Character classes such as \w and [[:alpha:]] and the recognition of URNs
followed the locale that was global when a pattern was first compiled.
---
 include/valijson/internal/regex.hpp | 22 ++++++++++++++++++++++
 include/valijson/internal/uri.hpp   |  2 +-
 include/valijson/validator.hpp      |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/valijson/internal/regex.hpp b/include/valijson/internal/regex.hpp
index 4e5011d..0b37e76 100644
--- a/include/valijson/internal/regex.hpp
+++ b/include/valijson/internal/regex.hpp
@@ -1,3 +1,8 @@
+#pragma once
+
+#include <locale>
+#include <string>
+
 #if defined(VALIJSON_USE_BOOST_REGEX) && VALIJSON_USE_BOOST_REGEX
 
 #include <boost/regex.hpp>
@@ -25,3 +30,20 @@ using std::smatch;
 } // namespace valijson
 
 #endif
+
+namespace valijson {
+namespace internal {
+
+/**
+ * @brief   Compile a regular expression independently of the global locale
+ */
+inline regex makeRegex(const std::string &pattern)
+{
+    regex result;
+    result.imbue(std::locale::classic());
+    result.assign(pattern);
+    return result;
+}
+
+} // namespace internal
+} // namespace valijson
diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index b030743..1b83855 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -41,7 +41,7 @@ inline bool isUriAbsolute(const std::string &uri)
  * Example: urn:isbn:978-3-16-148410-0
  */
 inline bool isUrn(const std::string &documentUri) {
-  static const internal::regex pattern(
+  static const internal::regex pattern = internal::makeRegex(
       "^((urn)|(URN)):(?!urn:)([a-zA-Z0-9][a-zA-Z0-9-]{1,31})(:[-a-zA-Z0-9\\\\._~%!$&'()\\/*+,;=]+)+(\\?[-a-zA-Z0-9\\\\._~%!$&'()\\/*+,;:=]+){0,1}(#[-a-zA-Z0-9\\\\._~%!$&'()\\/*+,;:=]+){0,1}$");
 
   return internal::regex_match(documentUri, pattern);
diff --git a/include/valijson/validator.hpp b/include/valijson/validator.hpp
index 3a6ab13..e57fc5d 100644
--- a/include/valijson/validator.hpp
+++ b/include/valijson/validator.hpp
@@ -102,7 +102,7 @@ private:
 struct DefaultRegexEngine
 {
     DefaultRegexEngine(const std::string& pattern)
-      : regex(pattern) { }
+      : regex(internal::makeRegex(pattern)) { }
 
     static bool search(const std::string& s, const DefaultRegexEngine& r)
     {
-- 
2.43.0


From 523e4d40e93775231c7015ca86208035c3129282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 25/30] fix: evaluate VALIJSON_USE_EXCEPTIONS in
 rapidjson_adapter.hpp

The macro is defined as 0 when exceptions are disabled, but the RapidJSON
adapter only tested whether it is defined. The header then used throw, and
did not compile with -fno-exceptions.
---
 include/valijson/adapters/rapidjson_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 742fd50..7d8ef4f 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -45,7 +45,7 @@
 #include <iterator>
 #include <type_traits>
 
-#ifdef VALIJSON_USE_EXCEPTIONS
+#if VALIJSON_USE_EXCEPTIONS
     #ifdef RAPIDJSON_ASSERT
         #warning "RAPIDJSON_ASSERT already defined."
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
-- 
2.43.0


From 6993f54cd3bde912753fc2865766d978900d6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 26/30] fix: report oversized array indices in JSON pointers
 without exceptions

std::stoul reports overflow by an exception of its own. When the library is
built without exceptions, the process ended without the message that it
prints when exceptions are enabled.
---
 include/valijson/internal/json_pointer.hpp | 71 ++++++++++------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 9aedded..0c6d8ad 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -192,52 +192,47 @@ inline AdapterType resolveJsonPointer(
                     "since the requested array element does not yet exist");
         }
 
-#if VALIJSON_USE_EXCEPTIONS
-        try {
-#endif
-            // Fragment must be non-negative integer
-            if (referenceToken.find_first_not_of("0123456789") != std::string::npos) {
-                throwRuntimeError("Expected reference token to contain a "
-                        "non-negative integer to identify an element in the "
-                        "current array; actual token: " + referenceToken);
-            }
-
-            const uint64_t index = std::stoul(referenceToken);
-            typedef typename AdapterType::Array Array;
-            const Array arr = node.asArray();
-            typename Array::const_iterator itr = arr.begin();
-            const uint64_t arrSize = arr.size();
-
-            if (arrSize == 0 || index > arrSize - 1) {
-                throwRuntimeError("Expected reference token to identify "
-                        "an element in the current array, but array index is "
-                        "out of bounds; actual token: " + referenceToken);
-            }
-
-            if (index > static_cast<uint64_t>(std::numeric_limits<std::ptrdiff_t>::max())) {
-                throwRuntimeError("Array index out of bounds; hard "
-                        "limit is " + std::to_string(
-                                std::numeric_limits<std::ptrdiff_t>::max()));
-            }
-
-            itr.advance(static_cast<std::ptrdiff_t>(index));
-
-            // Recursively process the remaining tokens
-            return resolveJsonPointer(*itr, jsonPointer, jsonPointerNext,
-                    preserveEmptyTokens);
-
-#if VALIJSON_USE_EXCEPTIONS
-        } catch (std::invalid_argument &) {
+        // Fragment must be non-negative integer
+        if (referenceToken.empty() ||
+                referenceToken.find_first_not_of("0123456789") != std::string::npos) {
             throwRuntimeError("Expected reference token to contain a "
                     "non-negative integer to identify an element in the "
                     "current array; actual token: " + referenceToken);
-        } catch (std::out_of_range &) {
+        }
+
+        // Conversion must not rely on exceptions, which may not be available
+        errno = 0;
+        const uint64_t index = strtoull(referenceToken.c_str(), nullptr, 10);
+        if (errno == ERANGE) {
             throwRuntimeError("Expected reference token to contain a "
                     "non-negative integer to identify an element in the "
                     "current array, but the numeric token is too large; "
                     "actual token: " + referenceToken);
         }
-#endif
+
+        typedef typename AdapterType::Array Array;
+        const Array arr = node.asArray();
+        typename Array::const_iterator itr = arr.begin();
+        const uint64_t arrSize = arr.size();
+
+        if (arrSize == 0 || index > arrSize - 1) {
+            throwRuntimeError("Expected reference token to identify "
+                    "an element in the current array, but array index is "
+                    "out of bounds; actual token: " + referenceToken);
+        }
+
+        if (index > static_cast<uint64_t>(std::numeric_limits<std::ptrdiff_t>::max())) {
+            throwRuntimeError("Array index out of bounds; hard "
+                    "limit is " + std::to_string(
+                            std::numeric_limits<std::ptrdiff_t>::max()));
+        }
+
+        itr.advance(static_cast<std::ptrdiff_t>(index));
+
+        // Recursively process the remaining tokens
+        return resolveJsonPointer(*itr, jsonPointer, jsonPointerNext,
+                preserveEmptyTokens);
+
     } else if (node.maybeObject()) {
         // Fragment must identify a member of the candidate object
         typedef typename AdapterType::Object Object;
-- 
2.43.0


From 7adad641ca1522c066fe5034ee08d41ddb7edef7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 27/30] fix: apply draft 3 'required' to every property that
 refers to a schema

---
 include/valijson/schema_parser.hpp   | 66 ++++++++++++++++------------
 include/valijson/schema_registry.hpp | 11 ++++-
 2 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ae956e3..00a07bd 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -924,6 +924,13 @@ private:
             }
         }
 
+        // Recorded before any child schemas are parsed, as they may refer back to
+        // the current schema
+        if (m_version == kDraft3 && (itr = object.find("required")) != object.end() &&
+                itr->second.maybeBool() && itr->second.asBool()) {
+            schemaRegistry.requiredSubschemas.insert(&subschema);
+        }
+
         // Add the type constraint first to be the first one to check because other constraints may rely on it
         if ((itr = object.find("type")) != object.end()) {
             rootSchema.addConstraintToSubschema(
@@ -1221,15 +1228,14 @@ private:
 
         if ((itr = object.find("required")) != object.end()) {
             if (m_version == kDraft3) {
-                if (parentSubschema && ownName) {
-                    std::optional<constraints::RequiredConstraint> constraint =
-                            makeRequiredConstraintForSelf(itr->second, *ownName);
-                    if (constraint) {
-                        rootSchema.addConstraintToSubschema(*constraint, parentSubschema);
-                    }
-                } else {
+                // Constraints are added to the parent schema, each time that a
+                // property refers to this schema
+                if (!parentSubschema || !ownName) {
                     throwRuntimeError("'required' constraint not valid here");
                 }
+                if (!itr->second.maybeBool()) {
+                    throwRuntimeError("Expected boolean value for 'required' attribute.");
+                }
             } else {
                 rootSchema.addConstraintToSubschema(makeRequiredConstraint(itr->second), &subschema);
             }
@@ -2507,6 +2513,8 @@ private:
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
                         schemaRegistry);
+                addRequiredConstraintForProperty(rootSchema, parentSubschema, subschema,
+                        property, schemaRegistry);
                 constraint.addPropertySubschema(property, subschema);
             }
         }
@@ -2520,6 +2528,8 @@ private:
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
                         schemaRegistry);
+                addRequiredConstraintForProperty(rootSchema, parentSubschema, subschema,
+                        pattern, schemaRegistry);
                 constraint.addPatternPropertySubschema(pattern, subschema);
             }
         }
@@ -2580,33 +2590,31 @@ private:
     }
 
     /**
-     * @brief   Make a new RequiredConstraint.
-     *
-     * This function is used to create new RequiredContraint objects for
-     * Draft 3 schemas.
-     *
-     * @param   node  Node containing a boolean value.
-     * @param   name  Name of the required attribute.
-     *
-     * @return  pointer to a new RequiredConstraint object that belongs to the
-     *          caller
+     * @brief   Add a RequiredConstraint for a property to its parent schema, if
+     *          the schema that describes the property says it is required.
+     *
+     * This function is used to support the 'required' keyword in Draft 3. It has
+     * to be called for every property, as the schema for a property may have been
+     * populated when it was referred to by another property.
+     *
+     * @param   rootSchema       The Schema instance that owns the subschemas
+     * @param   parentSubschema  Schema of the parent object
+     * @param   subschema        Schema that describes the property
+     * @param   name             Name of the property
+     * @param   schemaRegistry   Registry of populated schemas
      */
-    template<typename AdapterType>
-    std::optional<constraints::RequiredConstraint>
-            makeRequiredConstraintForSelf(const AdapterType &node,
-                    const std::string &name)
+    void addRequiredConstraintForProperty(
+        Schema &rootSchema,
+        const Subschema *parentSubschema,
+        const Subschema *subschema,
+        const std::string &name,
+        const SchemaRegistry &schemaRegistry)
     {
-        if (!node.maybeBool()) {
-            throwRuntimeError("Expected boolean value for 'required' attribute.");
-        }
-
-        if (node.asBool()) {
+        if (parentSubschema && schemaRegistry.requiredSubschemas.count(subschema) > 0) {
             constraints::RequiredConstraint constraint;
             constraint.addRequiredProperty(name);
-            return constraint;
+            rootSchema.addConstraintToSubschema(constraint, parentSubschema);
         }
-
-        return std::optional<constraints::RequiredConstraint>();
     }
 
     /**
diff --git a/include/valijson/schema_registry.hpp b/include/valijson/schema_registry.hpp
index 1f08b3a..b931e0d 100644
--- a/include/valijson/schema_registry.hpp
+++ b/include/valijson/schema_registry.hpp
@@ -1,12 +1,21 @@
 #pragma once
 
 #include <map>
+#include <set>
 #include <string>
 
 #include <valijson/subschema.hpp>
 
 namespace valijson {
 
-typedef std::map<std::string, const Subschema *> SchemaRegistry;
+/**
+ * @brief  Registry of the schemas that have been created so far
+ */
+struct SchemaRegistry : std::map<std::string, const Subschema *>
+{
+    /// Draft 3 schemas that make the properties they describe mandatory, by
+    /// setting 'required' to true
+    std::set<const Subschema *> requiredSubschemas;
+};
 
 }  // namespace valijson
-- 
2.43.0


From 0f49eb9cd6d42678716f0ee19b060397f66e21a4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 28/30] fix: do not take values in enum, const, default or
 examples for identified schemas

---
 include/valijson/schema_parser.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 00a07bd..2e57666 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -402,7 +402,8 @@ private:
             const std::string &targetUri,
             const std::string &nodePath,
             std::string &foundPath,
-            std::optional<std::string> &foundScope) const
+            std::optional<std::string> &foundScope,
+            const bool hasSchemasByName = false) const
     {
         std::optional<std::string> updatedScope = currentScope;
 
@@ -420,10 +421,21 @@ private:
             }
 
             for (const typename AdapterType::ObjectMember member : object) {
+                // The values of these keywords are not schemas, so that what looks
+                // like an identifier does not identify anything
+                const std::string &name = member.first;
+                if (!hasSchemasByName && (name == "enum" || name == "const" ||
+                        name == "default" || name == "examples")) {
+                    continue;
+                }
+
                 const std::string childPath =
-                        nodePath + "/" + escapeJsonPointerToken(member.first);
-                if (findSchemaById(member.second, updatedScope, targetUri,
-                            childPath, foundPath, foundScope)) {
+                        nodePath + "/" + escapeJsonPointerToken(name);
+                const bool childHasSchemasByName = !hasSchemasByName && (
+                        name == "properties" || name == "patternProperties" ||
+                        name == "definitions" || name == "dependencies");
+                if (findSchemaById(member.second, updatedScope, targetUri, childPath,
+                            foundPath, foundScope, childHasSchemasByName)) {
                     return true;
                 }
             }
-- 
2.43.0


From bca078cd77c124ab9eaf6e4ebdcdc6dd3beae59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 29/30] fix: apply the identifier of an embedded schema only
 once

References were searched, and local references resolved, as if the root node
occurred in the scope of the schema that contains the reference. A relative
identifier was then applied to a scope that it was already part of: parsing
an embedded schema such as sub/e.json that refers to itself could recurse
until the stack was exhausted, and the references below it were resolved
relative to sub/sub/e.json.
---
 include/valijson/schema_parser.hpp   | 58 +++++++++++++++++++++++++---
 include/valijson/schema_registry.hpp |  5 +++
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 2e57666..5253a0d 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -141,6 +141,33 @@ private:
 
     ConstraintBuilders constraintBuilders;
 
+    /**
+     * @brief  Sets the scope of the root node for as long as schemas are parsed
+     *         relative to another root node
+     */
+    class RootScopeGuard
+    {
+    public:
+        RootScopeGuard(SchemaRegistry &schemaRegistry, std::optional<std::string> rootScope)
+          : m_schemaRegistry(schemaRegistry),
+            m_previousScope(std::move(rootScope))
+        {
+            m_previousScope.swap(m_schemaRegistry.rootScope);
+        }
+
+        RootScopeGuard(const RootScopeGuard &) = delete;
+        RootScopeGuard & operator=(const RootScopeGuard &) = delete;
+
+        ~RootScopeGuard()
+        {
+            m_previousScope.swap(m_schemaRegistry.rootScope);
+        }
+
+    private:
+        SchemaRegistry &m_schemaRegistry;
+        std::optional<std::string> m_previousScope;
+    };
+
     template<typename AdapterType>
     struct DocumentCache
     {
@@ -654,11 +681,12 @@ private:
                     ("#" + actualJsonPointer);
             std::string registeredPath;
             std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, idRef,
+            if (findSchemaById(rootNode, schemaRegistry.rootScope, idRef,
                         "", registeredPath, registeredScope)) {
                 const AdapterType registeredRoot =
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
+                const RootScopeGuard rootScopeGuard(schemaRegistry, registeredScope);
 
                 const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, idRef);
                 if (registeredPtr) {
@@ -709,11 +737,12 @@ private:
         if (otherDocument || documentUri) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
+            if (findSchemaById(rootNode, schemaRegistry.rootScope, *actualDocumentUri,
                         "", registeredPath, registeredScope)) {
                 const AdapterType registeredRoot =
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
+                const RootScopeGuard rootScopeGuard(schemaRegistry, registeredScope);
                 const AdapterType referencedAdapter = actualJsonPointer.empty()
                         ? registeredRoot
                         : internal::json_pointer::resolveJsonPointerStrict(
@@ -752,6 +781,7 @@ private:
                     findOrFetchDocument<AdapterType>(docCache, *actualDocumentUri, fetchDoc);
 
             const AdapterType newRootNode(*newDoc);
+            const RootScopeGuard rootScopeGuard(schemaRegistry, actualDocumentUri);
 
             // Find where we need to be in the document
             const AdapterType &referencedAdapter =
@@ -781,9 +811,22 @@ private:
         newRegistryKeys.push_back(queryKey);
 
         std::optional<std::string> referencedScope = currentScope;
-        findScopeForPath(rootNode, currentScope,
+        findScopeForPath(rootNode, schemaRegistry.rootScope,
                 normaliseJsonPointer(actualJsonPointer), "", referencedScope);
 
+        // The scope in which the root node occurs can not be part of a registry
+        // key for the root node, as that key may refer to a different document
+        if (actualJsonPointer.empty() && !extractJsonReference(referencedAdapter, jsonRef)) {
+            const Subschema *subschema = rootSchema.createSubschema();
+            updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
+
+            populateSchema(rootSchema, rootNode, referencedAdapter,
+                    *subschema, referencedScope, actualJsonPointer, fetchDoc,
+                    parentSubschema, ownName, docCache, schemaRegistry);
+
+            return subschema;
+        }
+
         // Populate the schema, starting from the referenced node, with
         // nested JSON References resolved relative to the new root node
         return makeOrReuseSchema(rootSchema, rootNode, referencedAdapter,
@@ -1368,11 +1411,12 @@ private:
                     ("#" + actualJsonPointer);
             std::string registeredPath;
             std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, idRef,
+            if (findSchemaById(rootNode, schemaRegistry.rootScope, idRef,
                         "", registeredPath, registeredScope)) {
                 const AdapterType registeredRoot =
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
+                const RootScopeGuard rootScopeGuard(schemaRegistry, registeredScope);
 
                 addVisitedKey(visitedKeys, idRef);
 
@@ -1392,11 +1436,12 @@ private:
         if (otherDocument || documentUri) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
+            if (findSchemaById(rootNode, schemaRegistry.rootScope, *actualDocumentUri,
                         "", registeredPath, registeredScope)) {
                 const AdapterType registeredRoot =
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
+                const RootScopeGuard rootScopeGuard(schemaRegistry, registeredScope);
                 const AdapterType referencedAdapter = actualJsonPointer.empty()
                         ? registeredRoot
                         : internal::json_pointer::resolveJsonPointerStrict(
@@ -1427,6 +1472,7 @@ private:
                     findOrFetchDocument<AdapterType>(docCache, *actualDocumentUri, fetchDoc);
 
             const AdapterType newRootNode(*newDoc);
+            const RootScopeGuard rootScopeGuard(schemaRegistry, actualDocumentUri);
 
             const AdapterType &referencedAdapter =
                 internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
@@ -1445,7 +1491,7 @@ private:
                     internal::json_pointer::resolveJsonPointerStrict(rootNode, actualJsonPointer);
 
             std::optional<std::string> referencedScope = currentScope;
-            findScopeForPath(rootNode, currentScope,
+            findScopeForPath(rootNode, schemaRegistry.rootScope,
                     normaliseJsonPointer(actualJsonPointer), "", referencedScope);
 
             resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
diff --git a/include/valijson/schema_registry.hpp b/include/valijson/schema_registry.hpp
index b931e0d..0d71837 100644
--- a/include/valijson/schema_registry.hpp
+++ b/include/valijson/schema_registry.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <map>
+#include <optional>
 #include <set>
 #include <string>
 
@@ -16,6 +17,10 @@ struct SchemaRegistry : std::map<std::string, const Subschema *>
     /// Draft 3 schemas that make the properties they describe mandatory, by
     /// setting 'required' to true
     std::set<const Subschema *> requiredSubschemas;
+
+    /// Resolution scope in which the current root node occurs, before its own
+    /// identifier (if any) has been applied
+    std::optional<std::string> rootScope;
 };
 
 }  // namespace valijson
-- 
2.43.0


From 5dbe8bf97a816e21bf75e60aac6c1a66fe698d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 30/30] fix: keep names that contain '%' apart from
 percent-encoded references

Node paths are compared with, and resolved like, JSON Pointers taken from
URIs, in which '%' starts an encoded character. A member named "%41" was
mistaken for the target of a reference to a member named "A".
---
 include/valijson/schema_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 5253a0d..20515ba 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -361,6 +361,8 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                result += "%25";
             } else {
                 result += c;
             }
-- 
2.43.0

