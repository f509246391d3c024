From 39a250c25f71ab6fdcbe9b406b7a0e913c068cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 01/13] fix: try the concrete result before InputRequiredResult
 in *ResultResponseResult

InputRequiredResult has no required member of its own, so the untagged
unions of the 2026-07-28 and draft schemas always picked it and dropped
the members of CallToolResult, GetPromptResult and ReadResourceResult.
---
 src/generated_schema/2026_07_28/mcp_schema.rs | 6 +++---
 src/generated_schema/draft/mcp_schema.rs      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..aebc458 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -673,8 +673,8 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for CallToolResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -3021,8 +3021,8 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for GetPromptResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -6978,8 +6978,8 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for ReadResourceResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..f5581ce 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -673,8 +673,8 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for CallToolResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -3021,8 +3021,8 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for GetPromptResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -6978,8 +6978,8 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for ReadResourceResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
-- 
2.43.0


From 801084a6f1055674e24ff3f546ac061dac08006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 02/13] fix: keep enum members when deserializing form field
 schemas

PrimitiveSchemaDefinition tried StringSchema first and EnumSchema tried
UntitledSingleSelectEnumSchema before LegacyTitledEnumSchema, so enum
values and display names of conforming documents were dropped.
---
 src/generated_schema/2025_06_18/mcp_schema.rs |  2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs | 24 +++++++++++++++----
 src/generated_schema/2026_07_28/mcp_schema.rs | 24 +++++++++++++++----
 src/generated_schema/draft/mcp_schema.rs      | 24 +++++++++++++++----
 4 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..130c310 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,10 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
+    EnumSchema(EnumSchema),
     StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
-    EnumSchema(EnumSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..e69bcfe 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -3114,11 +3114,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -4523,6 +4524,18 @@ pub struct LegacyTitledEnumSchema {
     #[serde(rename = "type", deserialize_with = "validate::legacy_titled_enum_schema_type_")]
     type_: ::std::string::String,
 }
+/// Deserializes a `LegacyTitledEnumSchema` only if it lists display names (`enumNames`); without them it is
+/// an `UntitledSingleSelectEnumSchema`. Used by the untagged unions that contain both.
+fn legacy_titled_enum_schema_with_names<'de, D>(deserializer: D) -> ::std::result::Result<LegacyTitledEnumSchema, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let schema: LegacyTitledEnumSchema = ::serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(::serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
 impl LegacyTitledEnumSchema {
     pub fn new(
         enum_: ::std::vec::Vec<::std::string::String>,
@@ -5902,14 +5915,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index aebc458..1bd9d62 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -2748,11 +2748,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -4212,6 +4213,18 @@ pub struct LegacyTitledEnumSchema {
     #[serde(rename = "type", deserialize_with = "validate::legacy_titled_enum_schema_type_")]
     type_: ::std::string::String,
 }
+/// Deserializes a `LegacyTitledEnumSchema` only if it lists display names (`enumNames`); without them it is
+/// an `UntitledSingleSelectEnumSchema`. Used by the untagged unions that contain both.
+fn legacy_titled_enum_schema_with_names<'de, D>(deserializer: D) -> ::std::result::Result<LegacyTitledEnumSchema, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let schema: LegacyTitledEnumSchema = ::serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(::serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
 impl LegacyTitledEnumSchema {
     pub fn new(
         enum_: ::std::vec::Vec<::std::string::String>,
@@ -6178,14 +6191,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index f5581ce..2e37293 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -2748,11 +2748,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -4212,6 +4213,18 @@ pub struct LegacyTitledEnumSchema {
     #[serde(rename = "type", deserialize_with = "validate::legacy_titled_enum_schema_type_")]
     type_: ::std::string::String,
 }
+/// Deserializes a `LegacyTitledEnumSchema` only if it lists display names (`enumNames`); without them it is
+/// an `UntitledSingleSelectEnumSchema`. Used by the untagged unions that contain both.
+fn legacy_titled_enum_schema_with_names<'de, D>(deserializer: D) -> ::std::result::Result<LegacyTitledEnumSchema, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    let schema: LegacyTitledEnumSchema = ::serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(::serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
 impl LegacyTitledEnumSchema {
     pub fn new(
         enum_: ::std::vec::Vec<::std::string::String>,
@@ -6178,14 +6191,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
-- 
2.43.0


From 00843bbb0a788abd1c1303d85ad1b7c7946f653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 03/13] fix: keep a null ttl of a task when it is serialized
 again

ttl is a required member of Task that is null for unlimited retention; a
parsed null was written back as an absent member.
---
 src/generated_schema/2025_11_25/mcp_schema.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index e69bcfe..52a6d7b 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8808,6 +8808,13 @@ pub struct SubscribeRequestParams {
     ///The URI of the resource. The URI can use any protocol; it is up to the server how to interpret it.
     pub uri: ::std::string::String,
 }
+/// Keeps an explicit `null` (unlimited retention) apart from an absent `ttl`.
+fn nullable_ttl<'de, D>(deserializer: D) -> ::std::result::Result<::std::option::Option<::std::option::Option<i64>>, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    ::serde::Deserialize::deserialize(deserializer).map(Some)
+}
 ///Data associated with a task.
 ///
 /// <details><summary>JSON schema</summary>
@@ -8881,7 +8888,11 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "nullable_ttl",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9120,7 +9131,11 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "nullable_ttl",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
-- 
2.43.0


From 9dfd1755caf7809695fab7ea031c342988bdea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 04/13] fix: leave out absent params of a resources/list
 request

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..692a8c0 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..9cb690f 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..ca4810a 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1939,7 +1939,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From 4c4e25eada3605bd5147f7529fa73eb502c7dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 05/13] fix: give SdkError::bad_request its own message

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 692a8c0..1fb95a5 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2608,7 +2608,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9cb690f..4337050 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2607,7 +2607,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index ca4810a..a6e1bf0 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2740,7 +2740,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..e289a28 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From d0f0bce249c677751673b5ef6167509ac8232297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 06/13] fix: do not panic in SdkError::request_timeout for
 timeouts beyond 64 bits

---
 src/generated_schema/2024_11_05/schema_utils.rs | 3 ++-
 src/generated_schema/2025_03_26/schema_utils.rs | 3 ++-
 src/generated_schema/2025_06_18/schema_utils.rs | 3 ++-
 src/generated_schema/2025_11_25/schema_utils.rs | 3 ++-
 src/generated_schema/2026_07_28/schema_utils.rs | 3 ++-
 src/generated_schema/draft/schema_utils.rs      | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 1fb95a5..71d5885 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2551,7 +2551,8 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            // a JSON number holds at most 64 bits
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 4337050..93774ff 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2550,7 +2550,8 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            // a JSON number holds at most 64 bits
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index a6e1bf0..88a4128 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2683,7 +2683,8 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            // a JSON number holds at most 64 bits
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e289a28..390eb58 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3470,7 +3470,8 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            // a JSON number holds at most 64 bits
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..f4fab77 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2854,7 +2854,8 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            // a JSON number holds at most 64 bits
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..f4fab77 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2854,7 +2854,8 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            // a JSON number holds at most 64 bits
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
-- 
2.43.0


From 5fc83145d9ce60ede644af5ba06a4e7c643d6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 07/13] fix: describe required url elicitations as
 UrlElicitErrorData

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 390eb58..43b68ac 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3524,9 +3524,13 @@ impl SdkError {
     /// The result json matches a UrlElicitError and the `data` value could be deserialized into UrlElicitErrorData
     ///
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
+        let data = UrlElicitErrorData {
+            elicitations: elicit_url_params,
+            extra: None,
+        };
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
+            data: Some(serde_json::to_value(data).unwrap_or_else(|_| {
                 json!(
                     { "elicitations" : [], "error" :
                     "failed to UrlElicitError data" }
@@ -3625,9 +3629,13 @@ impl RpcError {
     /// The result json matches a UrlElicitError and the `data` value could be deserialized into UrlElicitErrorData
     ///
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
+        let data = UrlElicitErrorData {
+            elicitations: elicit_url_params,
+            extra: None,
+        };
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
+            data: Some(serde_json::to_value(data).unwrap_or_else(|_| {
                 json!(
                     { "elicitations" : [], "error" :
                     "failed to UrlElicitError data" }
-- 
2.43.0


From 069e2f40224e8a075dc6fee7843a3c2d6202a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 08/13] fix: clients without the tasks capability cannot list
 or cancel tasks

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 43b68ac..d2f0d0f 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2773,17 +2773,13 @@ impl ClientCapabilities {
                 }
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_cancel_tasks() {
-                        return Err(create_error("task cancellation", request_method));
-                    }
+                if !self.can_cancel_tasks() {
+                    return Err(create_error("task cancellation", request_method));
                 }
             }
             ServerJsonrpcRequest::ListTasksRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_list_tasks() {
-                        return Err(create_error("listing tasks", request_method));
-                    }
+                if !self.can_list_tasks() {
+                    return Err(create_error("listing tasks", request_method));
                 }
             }
 
-- 
2.43.0


From f7b16ed77ada956ee9dd9eafbc44ec12c4d542af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 09/13] fix: sampling with tools requires the sampling.tools
 capability

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index d2f0d0f..50f5e0c 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2749,7 +2749,9 @@ impl ClientCapabilities {
                             return Err(create_error("context inclusion", request_method));
                         }
 
-                        if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
+                        if (create_message_request.params.tool_choice.is_some() || !create_message_request.params.tools.is_empty())
+                            && samplig_capabilities.tools.is_none()
+                        {
                             return Err(create_error("tool choice", request_method));
                         }
                     }
-- 
2.43.0


From ca07151052a87378fef57bdb2fb4705af875641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 10/13] fix: includeContext none does not require the
 sampling.context capability

---
 src/generated_schema/2025_11_25/schema_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 50f5e0c..0bb3de5 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2744,7 +2744,11 @@ impl ClientCapabilities {
                 match self.sampling.as_ref() {
                     Some(samplig_capabilities) => {
                         //  include_context requested but not supported
-                        if create_message_request.params.include_context.is_some() && samplig_capabilities.context.is_none()
+                        if create_message_request
+                            .params
+                            .include_context
+                            .is_some_and(|context| context != IncludeContext::None)
+                            && samplig_capabilities.context.is_none()
                         {
                             return Err(create_error("context inclusion", request_method));
                         }
-- 
2.43.0


From 33a36ca2d262172f592ca604ca368c05ea2c4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 11/13] fix: return an error for form fields of an unsupported
 type (2025_06_18)

---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 88a4128..67ac4f9 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From 8f365fa435b617f7f6deab7765c51b4d85ce1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 12/13] fix: keep the choices of an enum form field
 (2025_06_18)

---
 src/generated_schema/2025_06_18/schema_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 67ac4f9..0dd73f2 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1844,6 +1844,11 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
         let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string()));
 
         let schema_definition: PrimitiveSchemaDefinition = match input_type {
+            "string" if value.contains_key("enum") => {
+                let schema: EnumSchema = serde_json::from_value(Value::Object(value.clone()))
+                    .map_err(|e| RpcError::parse_error().with_message(format!("Failed to parse EnumSchema: {e}")))?;
+                PrimitiveSchemaDefinition::EnumSchema(schema)
+            }
             "string" => {
                 let max_length = value.get("maxLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
                 let min_length = value.get("minLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
-- 
2.43.0


From 62e472e1207f32e5c26ef23333bf2d8c486affc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 13/13] fix: read the related task id where set_related_task_id
 writes it (2025_11_25)

---
 src/generated_schema/2025_11_25/schema_utils.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 0bb3de5..4f475ab 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2901,8 +2901,8 @@ impl GetTaskPayloadResult {
     /// Retrieves the related task ID from the metadata, if it exists.
     ///
     /// This function looks for a key corresponding to the `RELATED_TASK_META_KEY` in the
-    /// `meta` field of the struct. If the key exists and contains a string value, it returns
-    /// it as an `Option<&str>`. If the key is missing or not a string, it returns `None`.
+    /// `meta` field of the struct. If the key exists and its `taskId` (or the entry itself) is a
+    /// string, it returns it as an `Option<&str>`. Otherwise, it returns `None`.
     ///
     /// # Returns
     /// - `Some(&str)` if a related task ID exists.
@@ -2911,7 +2911,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
-            .and_then(|v| v.as_str())
+            .and_then(|v| v.get("taskId").unwrap_or(v).as_str())
     }
 
     /// Sets the related task ID in the metadata.
@@ -2947,8 +2947,8 @@ pub trait McpMetaEx {
     /// Retrieves the related task ID from the metadata, if it exists.
     ///
     /// This function looks for a key corresponding to the `RELATED_TASK_META_KEY` in the
-    /// `meta` field of the struct. If the key exists and contains a string value, it returns
-    /// it as an `Option<&str>`. If the key is missing or not a string, it returns `None`.
+    /// `meta` field of the struct. If the key exists and its `taskId` (or the entry itself) is a
+    /// string, it returns it as an `Option<&str>`. Otherwise, it returns `None`.
     ///
     /// # Returns
     /// - `Some(&str)` if a related task ID exists.
@@ -2996,7 +2996,8 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId").unwrap_or(v).as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0

