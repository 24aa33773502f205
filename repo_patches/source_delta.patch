From 3d30095a91cffab5dcf88b66166e71472c8f34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:20 +0000
Subject: [PATCH 01/33] fix: don't treat {ready} inside tag values or paths as
 end of response

---
 src/DefaultExifToolOptions.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..a939afb 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -60,8 +60,10 @@ export const DefaultExifToolOptions: Omit<
   exiftoolArgs: DefaultExiftoolArgs,
   exiftoolEnv: {},
   checkPerl: !isWin32(),
-  pass: "{ready}",
-  fail: "{ready}",
+  // ExifTool always prints a newline after "{ready}". Tag values may contain
+  // "{ready}", too, but they're JSON-encoded, and can't contain a raw newline.
+  pass: /\{ready\}\r?\n/,
+  fail: /^\{ready\}\r?\n/m,
   exitCommand: "-stay_open\nFalse\n",
   versionCommand: new VersionTask().command,
   healthCheckIntervalMillis: 30000,
-- 
2.43.0


From 11a5824d522d9da7577320c50b2b51e801daf030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:39 +0000
Subject: [PATCH 02/33] fix: decode multi-byte characters that are split across
 stream chunks

---
 src/ExifToolTask.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index c3557d6..a6edfaa 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -1,4 +1,5 @@
 import * as bc from "batch-cluster";
+import { StringDecoder } from "node:string_decoder";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
@@ -35,6 +36,10 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
 
+  // Multi-byte characters may be split across stream chunks:
+  readonly #stdoutDecoder = new StringDecoder("utf8");
+  readonly #stderrDecoder = new StringDecoder("utf8");
+
   constructor(
     readonly args: string[],
     readonly options?: ExifToolTaskOptions,
@@ -44,6 +49,10 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
     );
   }
 
+  override onStdout(buf: string | Buffer): void {
+    super.onStdout(Buffer.isBuffer(buf) ? this.#stdoutDecoder.write(buf) : buf);
+  }
+
   override onStderr(buf: string | Buffer): void {
     if (BadPerlInstallationRE.test(buf.toString())) {
       // This isn't an error we can recover from: there's a Perl module that
@@ -52,7 +61,7 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       // details.
       throw new Error(buf.toString());
     }
-    super.onStderr(buf);
+    super.onStderr(Buffer.isBuffer(buf) ? this.#stderrDecoder.write(buf) : buf);
   }
 
   #parser(stdout: string, stderr: string | undefined, passed: boolean): T {
-- 
2.43.0


From c02a0c658382cb9487647ab9ca6ce8f155384ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:58 +0000
Subject: [PATCH 03/33] fix: reject the task, rather than throwing from a
 stream listener, on bad perl installations

---
 src/ExifToolTask.ts | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index a6edfaa..f9ad26c 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -54,13 +54,6 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   }
 
   override onStderr(buf: string | Buffer): void {
-    if (BadPerlInstallationRE.test(buf.toString())) {
-      // This isn't an error we can recover from: there's a Perl module that
-      // needs to be installed. See
-      // https://github.com/photostructure/exiftool-vendored.js/issues/168 for
-      // details.
-      throw new Error(buf.toString());
-    }
     super.onStderr(Buffer.isBuffer(buf) ? this.#stderrDecoder.write(buf) : buf);
   }
 
@@ -70,7 +63,13 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       for (const line of splitLines(stderr ?? "")) {
         if (isWarning(line)) {
           this.warnings.push(line);
-        } else if (/error|warning/i.test(line)) {
+        } else if (
+          /error|warning/i.test(line) ||
+          // There's a Perl module that needs to be installed. See
+          // https://github.com/photostructure/exiftool-vendored.js/issues/168
+          // for details.
+          BadPerlInstallationRE.test(line)
+        ) {
           this.errors.push(line);
           // new Error() will add a "Error: " prefix:
           error ??= new Error(line.replace(/^error: /i, ""));
-- 
2.43.0


From 11658898fd8ca08e867b942a5146f00db30aa1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:18 +0000
Subject: [PATCH 04/33] fix: a failed spawn rejects instead of crashing the
 host process

---
 src/ExifTool.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..cc24565 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -1,5 +1,6 @@
 import * as bc from "batch-cluster";
 import * as _cp from "node:child_process";
+import { once } from "node:events";
 import * as _fs from "node:fs";
 import process from "node:process";
 import { ifArray } from "./Array";
@@ -281,14 +282,22 @@ export class ExifTool {
     // default factory that spawns perl directly.
     const processFactory =
       options.processFactory ??
-      (async () =>
-        ignoreShebang
+      (async () => {
+        const proc = ignoreShebang
           ? _cp.spawn(
               await whichPerl(),
               [await this.exiftoolPath(), ...o.exiftoolArgs],
               spawnOpts,
             )
-          : _cp.spawn(await this.exiftoolPath(), o.exiftoolArgs, spawnOpts));
+          : _cp.spawn(await this.exiftoolPath(), o.exiftoolArgs, spawnOpts);
+        if (proc.pid == null) {
+          // Spawn failed (ENOENT, EAGAIN, EMFILE, ...). Without a listener, the
+          // forthcoming "error" event would be an uncaught exception.
+          const [error] = await once(proc, "error");
+          throw error;
+        }
+        return proc;
+      });
 
     this.options = {
       ...o,
-- 
2.43.0


From 4eb61492aaece8f2c79d1e2a2c27213430f08690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:39 +0000
Subject: [PATCH 05/33] fix: don't cache rejected perl/exiftool lookups and tag
 description loads forever

---
 src/Lazy.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Lazy.ts b/src/Lazy.ts
index 7855847..f726c3b 100644
--- a/src/Lazy.ts
+++ b/src/Lazy.ts
@@ -10,7 +10,14 @@ export function lazy<T>(thunk: () => T): Lazy<T> {
     if (!invoked) {
       try {
         invoked = true;
-        result = thunk();
+        const r = thunk();
+        result = r;
+        if (r instanceof Promise) {
+          // Don't memoize transient failures: let the next call try again.
+          r.catch(() => {
+            if (result === r) f.clear();
+          });
+        }
       } catch (e: unknown) {
         error = toError(e);
         throw e;
-- 
2.43.0


From 432983eaaa924d6fdffb942aea7bfce4d6193339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:39 +0000
Subject: [PATCH 06/33] fix: async disposal waits for an end() that is already
 in flight

---
 src/ExifTool.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index cc24565..144a7c5 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -995,6 +995,9 @@ export class ExifTool {
       } finally {
         if (timeoutHandle != null) clearTimeout(timeoutHandle);
       }
+    } else {
+      // end() may already be in flight: don't resolve until it's done.
+      await this.end();
     }
   }
 }
-- 
2.43.0


From be30ab18fe48677bf7f9492a9150eaba9c4d0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:46 +0000
Subject: [PATCH 07/33] fix: write() doesn't modify the caller's tags

---
 src/WriteTask.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..0b5e114 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -159,6 +159,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     tags: WriteTags,
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
+    // Don't mutate the caller's object: it may be frozen, or be reused.
+    tags = { ...tags };
+
     // Special handling for GPSLatitude and GPSLongitude (due to differences
     // in EXIF, XMP, and MIE encodings). See
     // https://exiftool.org/forum/index.php?topic=14488.0 and
-- 
2.43.0


From 97bf956e2f4044bbf339664831509a14bab3f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:31 +0000
Subject: [PATCH 08/33] fix: time-only tags don't depend on today's DST
 transitions

---
 src/ExifTime.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..71e341c 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -14,8 +14,11 @@ export class ExifTime {
     if (s.length === 0) return;
     const result = parseDateTime(text, timeFormats({ defaultZone }));
     if (result != null) {
+      // `result.dt` is on today's date. If today is a DST transition in that
+      // zone, luxon will have shifted times that don't exist today.
+      const dt = DateTime.fromFormat(result.input, result.fmt, { zone: "UTC" });
       return this.fromDateTime(
-        result.dt,
+        dt,
         text,
         result.unsetZone ? undefined : getZoneName({ zone: result.dt.zone }),
         result.inferredZone,
-- 
2.43.0


From 7845e133fc6fc85c9b0ff4d69fb7d91333fece59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:03 +0000
Subject: [PATCH 09/33] fix: zoneless ExifDateTimes render the same on every
 system

---
 src/ExifDateTime.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..53ce42b 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -317,6 +317,12 @@ export class ExifDateTime {
     }));
   }
 
+  // If we don't have a zone, we need to render the same local time on every
+  // system: the system timezone may skip this time due to a DST transition.
+  #toRenderable(): DateTime {
+    return this.hasZone ? this.toDateTime() : this.toDateTime("UTC");
+  }
+
   toEpochSeconds(overrideZone?: Maybe<string>) {
     return this.toDateTime(overrideZone).toUnixInteger();
   }
@@ -327,7 +333,7 @@ export class ExifDateTime {
 
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#toRenderable().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -336,7 +342,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#toRenderable(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
-- 
2.43.0


From 50d3768491fbb02eb756fa41f6e3ccad206ea887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:46 +0000
Subject: [PATCH 10/33] fix: ambiguous local times don't depend on the current
 date

---
 src/ExifDateTime.ts | 12 ++++++++----
 src/TimeParsing.ts  | 25 +++++++++++++++++++++----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 53ce42b..9dbfe0e 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -13,6 +13,7 @@ import { omit } from "./Object";
 import { blank, isString, notBlank } from "./String";
 import {
   TimeFormatMeta,
+  disambiguate,
   parseDateTime,
   setZone,
   timeFormats,
@@ -311,10 +312,13 @@ export class ExifDateTime {
     }
 
     // Cache the DateTime for performance
-    return (this.#dt ??= DateTime.fromObject(this.toDateTimeObject(), {
-      // Convert zone name string to Zone object so Luxon can recognize it
-      zone: normalizeZone(this.zone) ?? this.zone,
-    }));
+    return (this.#dt ??= disambiguate(
+      DateTime.fromObject(this.toDateTimeObject(), {
+        // Convert zone name string to Zone object so Luxon can recognize it
+        zone: normalizeZone(this.zone) ?? this.zone,
+      }),
+      this.tzoffsetMinutes,
+    ));
   }
 
   // If we don't have a zone, we need to render the same local time on every
diff --git a/src/TimeParsing.ts b/src/TimeParsing.ts
index 3ba4fd9..5dcf629 100644
--- a/src/TimeParsing.ts
+++ b/src/TimeParsing.ts
@@ -44,6 +44,21 @@ export interface TimeParseResult {
   unsetMilliseconds: boolean;
 }
 
+/**
+ * Local times happen twice when clocks are set back, and luxon picks one of them
+ * based on the zone's _current_ offset. We need the same answer every day: use
+ * the given offset, if applicable, or the earlier of the two.
+ */
+export function disambiguate(
+  dt: DateTime,
+  offsetMinutes?: Maybe<number>,
+): DateTime {
+  const candidates = dt.getPossibleOffsets();
+  return (
+    candidates.find((ea) => ea.offset === offsetMinutes) ?? candidates[0] ?? dt
+  );
+}
+
 export function parseDateTime(
   text: string,
   fmts: Iterable<TimeFormatMeta>,
@@ -54,10 +69,12 @@ export function parseDateTime(
   const input = extractedZone?.leftovers ?? s;
 
   for (const ea of fmts) {
-    const dt = DateTime.fromFormat(input, ea.fmt, {
-      setZone: true,
-      zone: extractedZone?.tz ?? ea.zone ?? UnsetZone,
-    });
+    const dt = disambiguate(
+      DateTime.fromFormat(input, ea.fmt, {
+        setZone: true,
+        zone: extractedZone?.tz ?? ea.zone ?? UnsetZone,
+      }),
+    );
     if (dt?.isValid !== true) continue;
     const unsetZone =
       extractedZone?.tz == null && (dt.zone == null || dt.zone === UnsetZone);
-- 
2.43.0


From ecc348e410ffc7bb3a1d316dc969778fc94766ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:04 +0000
Subject: [PATCH 11/33] fix: extractBinaryTag honors the instance's forceWrite
 option

---
 src/ExifTool.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 144a7c5..559a961 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -715,7 +715,7 @@ export class ExifTool {
     // the task should not be retried.
     const maybeError = await this.enqueueTask(() =>
       BinaryExtractionTask.for(tagname, src, dest, {
-        ...this.#taskOptions(),
+        ...pick(this.options, "ignoreMinorErrors", "forceWrite"),
         ...opts,
       }),
     );
-- 
2.43.0


From 3eaed5d0b2eeeb6ea0b450fca3ff70123e421c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:22 +0000
Subject: [PATCH 12/33] fix: the deprecated includeImageDataMD5 option is no
 longer ignored

---
 src/ExifTool.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 559a961..4f68849 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -250,10 +250,12 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    // Apply deprecated options before defaults, as the default value for
+    // imageHashType would otherwise always win.
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -390,7 +392,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
-- 
2.43.0


From aedadd6fb46e0b33111d2fd7b1f7850dc0d30593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:54 +0000
Subject: [PATCH 13/33] fix: don't cache tag descriptions from failed -listx
 queries

---
 src/ListXTask.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ListXTask.ts b/src/ListXTask.ts
index 6f39558..f3510b5 100644
--- a/src/ListXTask.ts
+++ b/src/ListXTask.ts
@@ -13,7 +13,12 @@ export class ListXTask extends ExifToolTask<string> {
     super(["-listx"], options);
   }
 
-  protected parse(input: string): string {
+  protected parse(input: string, error?: Error): string {
+    // Incomplete output must not be mistaken for (and cached as!) a tag
+    // database that is missing tags.
+    if (!input.trimEnd().endsWith("</taginfo>")) {
+      throw error ?? new Error("Incomplete -listx output from ExifTool");
+    }
     // Return raw XML - parsing is handled by TagDescriptions
     return input;
   }
-- 
2.43.0


From 8db20ce3fa2646d8b819849741cdb0d62fdfad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 14/33] fix: decode apostrophes in tag descriptions

---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..5c48b20 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -583,7 +583,7 @@ export class TagDescriptions {
       .replace(/&lt;/g, "<")
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
-      .replace(/&apos;/g, "'")
+      .replace(/&(?:apos|#39);/g, "'")
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From 127887761efdc07cf8adb3553aa2b5a989742824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:37 +0000
Subject: [PATCH 15/33] fix: tag descriptions don't expose Object.prototype
 members

---
 src/TagDescriptions.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 5c48b20..8fb2ab0 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,13 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  #getCurated(tagName: string): Maybe<TagDescription> {
+    // hasOwn: "constructor" and "toString" are not tags
+    return Object.hasOwn(this.#curated, tagName)
+      ? this.#curated[tagName]
+      : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +421,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#getCurated(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +432,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#getCurated(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From e26666698a5e40222300b73a1e3549119e4e208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:22 +0000
Subject: [PATCH 16/33] fix: errors on files named like a warning are still
 errors

---
 src/IsWarning.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/IsWarning.ts b/src/IsWarning.ts
index 0ff52f5..4d09774 100644
--- a/src/IsWarning.ts
+++ b/src/IsWarning.ts
@@ -9,6 +9,10 @@ export interface IgnorableError {
 
 const WarningRE = /\bwarning: |\bnothing to (?:write|do)\b/i;
 
+// ExifTool appends the file name to its messages, so the text following
+// "Error: " must not be able to turn the error into a warning.
+const ErrorRE = /^error: (?!nothing to (?:write|do)\b)/i;
+
 /**
  * This is the default implementation of IgnorableError, and ignores null,
  * undefined, errors without a message, warnings about duplicate tags, and
@@ -17,5 +21,5 @@ const WarningRE = /\bwarning: |\bnothing to (?:write|do)\b/i;
 export function isWarning(err: Maybe<Error | string>): boolean {
   if (err == null) return true;
   const msg = (err instanceof Error ? err.message : toS(err)).trim();
-  return blank(msg) || WarningRE.test(msg);
+  return blank(msg) || (WarningRE.test(msg) && !ErrorRE.test(msg));
 }
-- 
2.43.0


From 51799387b36768bfebc607385f0ae0ea5ed79e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:48 +0000
Subject: [PATCH 17/33] fix: lists within structures are written item by item

---
 src/WriteTask.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 0b5e114..395bad2 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -64,9 +64,10 @@ function enc(
     return toExifString(o);
   } else if (Array.isArray(o)) {
     const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
-    return primitiveArray
+    // -sep doesn't apply within structures: lists must be serialized there.
+    return primitiveArray && !structValue
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+      : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From 92f6bfa9c2717f6345a9eb8b43d0a3aaa8a9a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:42 +0000
Subject: [PATCH 18/33] fix: tag names can't be ExifTool options

---
 src/BinaryExtractionTask.ts |  4 +--
 src/BinaryToBufferTask.ts   |  4 +--
 src/TagNameValidation.ts    | 52 +++++++++++++++++++++++++++++++++++++
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 5f71225..6cd808a 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -5,7 +5,7 @@ import { ExifToolTask } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { toS } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateExtractedTagName } from "./TagNameValidation";
 
 export type BinaryExtractionTaskOptions = Pick<
   ExifToolOptions,
@@ -38,7 +38,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
     imgDest: string,
     options?: BinaryExtractionTaskOptions,
   ): BinaryExtractionTask {
-    validateTagName(tagname);
+    validateExtractedTagName(tagname);
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
 
diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index 28bf4c1..a3da539 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -3,7 +3,7 @@ import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { notBlank } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateExtractedTagName } from "./TagNameValidation";
 
 /**
  * Task that returns an error string (to prevent retries), or undefined if
@@ -23,7 +23,7 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
     imgSrc: string,
     options?: ExifToolTaskOptions,
   ): BinaryToBufferTask {
-    validateTagName(tagname);
+    validateExtractedTagName(tagname);
     const args = [...Utf8FilenameCharsetArgs, "-json", "-b", "-" + tagname];
     args.push(path.resolve(imgSrc));
     return new BinaryToBufferTask(tagname, args, options);
diff --git a/src/TagNameValidation.ts b/src/TagNameValidation.ts
index e1d8585..9b9bb6f 100644
--- a/src/TagNameValidation.ts
+++ b/src/TagNameValidation.ts
@@ -21,6 +21,41 @@
  */
 const ValidTagNameRE = /^[A-Za-z0-9_:*?+#^][A-Za-z0-9_:\-*?+#^]*$/;
 
+/**
+ * ExifTool reads tag values from the file given as the value of these options:
+ * they must not be mistaken for tag names by write().
+ */
+const ImportOptionRE = /^(?:csv|j(?:son)?|(?:all|add)?tagsfromfile)\+?$/i;
+
+/**
+ * ExifTool options that are valid tag names according to
+ * {@link ValidTagNameRE}. ExifTool would obey these rather than extract a tag.
+ *
+ * See https://exiftool.org/exiftool_pod.html#OPTIONS
+ */
+const OptionNameRE = new RegExp(
+  "^(?:" +
+    [
+      "\\w",
+      "api|arg(?:s|format)|binary|charset|common_args|composite|config",
+      "coordformat|csvdelim|dateformat|decimal|delete_original|diff|duplicates",
+      "e[chx]|escape(?:c|html|xml)|echo\\d?|e?file\\d*|fileorder\\d*",
+      "(?:ee|extractembedded)\\d*|exclude|execute\\d*|ext(?:ension)?\\+?",
+      "f(?:ixbase)?[-+]?\\d*|fast\\d*|forceprint",
+      "g(?:roup(?:headings|names))?[\\d:]*|geotag|globaltimeshift",
+      "hex|htmldump[-+]?\\d*|htmlformat|if\\d*|ignore(?:minorerrors)?",
+      "lang|latin|list(?:_dir|item|[dfrwx]|wf|g\\d*|geo)?|long|nop|out",
+      "overwrite_original(?:_in_place)?|p-|password|pause|php|plot|preserve",
+      "printconv|printformat-?|progress.*|purge\\d*|quiet|recurse|require",
+      "restore_original|s(?:hort)?\\d*|scanforxmp|sep(?:arator)?|sort|srcfile",
+      "stay_open|struct|tab(?:le)?|tagout\\+?|tagoutext|textout\\+?|u(?:nknown)?2?",
+      "use|userparam|v(?:erbose)?\\d*|validate|ver|veryshort|w\\+|wext|wm",
+      "writemode|xmlformat|zip",
+    ].join("|") +
+    ")$",
+  "i",
+);
+
 /**
  * Throw if `name` is not a safe ExifTool tag reference.
  *
@@ -39,4 +74,21 @@ export function validateTagName(name: string, context = "tag name"): void {
         `Tag names must match ${ValidTagNameRE}.`,
     );
   }
+  if (ImportOptionRE.test(name)) {
+    throw new Error(
+      `Invalid ${context}: ${JSON.stringify(name)} is an ExifTool option.`,
+    );
+  }
+}
+
+/**
+ * Throw if `-name` is not a reference to a tag whose value is to be extracted.
+ */
+export function validateExtractedTagName(name: string): void {
+  validateTagName(name);
+  if (OptionNameRE.test(name)) {
+    throw new Error(
+      `Invalid tag name: ${JSON.stringify(name)} is an ExifTool option.`,
+    );
+  }
 }
-- 
2.43.0


From 42b48a515a4f1afb6f57c673a2012e1f08c871c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:25 +0000
Subject: [PATCH 19/33] fix: rewriteAllTags() accepts ExifTool's summary when
 it made a directory

If the destination's directory does not exist, ExifTool creates it and prints
"1 directories created" before "1 image files created". The status was only
looked for at the start of the output, so the call was rejected (and retried,
which then failed with "already exists") although the file had been written.
---
 src/RewriteAllTagsTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 61a4d9d..7344db4 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -49,7 +49,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
         throw error;
       }
     }
-    if (null == data.match(/^\s*1 image files creat/i)) {
+    if (null == data.match(/^\s*1 image files creat/im)) {
       throw (
         error ??
         new Error(
-- 
2.43.0


From 805f87972a000d498700ded67032140d73f4dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:22 +0000
Subject: [PATCH 20/33] fix: read() keeps structure fields named "__proto__"

---
 src/ReadTask.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..55f54b1 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -384,11 +384,14 @@ export class ReadTask extends ExifToolTask<Tags> {
         return value.map((ea) => this.#parseTag(tagName, ea));
       }
       if (isObject(value)) {
-        const result: Record<string, unknown> = {};
-        for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
-        }
-        return result;
+        // fromEntries, because assigning to a field named "__proto__" would set
+        // the prototype of the result instead:
+        return Object.fromEntries(
+          Object.entries(value).map(([k, v]) => [
+            k,
+            this.#parseTag(tagName + "." + k, v),
+          ]),
+        );
       }
       if (typeof value === "string") {
         const b = BinaryField.fromRawValue(value);
-- 
2.43.0


From af33e0ac1fb96a54b5248758b4885183842be199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 21/33] fix: read() no longer rejects files whose TimeStamp is
 a number

---
 src/Timezones.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..842451a 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1174,7 +1174,10 @@ export function extractTzOffsetFromTimeStamp(
   >,
 ): Maybe<TzSrc> {
   if (opts?.inferTimezoneFromTimeStamp !== true) return;
-  const ts = ExifDateTime.from(t.TimeStamp);
+  const rawTs: unknown = t.TimeStamp;
+  // ExifTool renders some TimeStamp values as a number
+  if (!isString(rawTs) && !(rawTs instanceof ExifDateTime)) return;
+  const ts = ExifDateTime.from(rawTs);
   if (ts == null) return;
   for (const tagName of opts.inferTimezoneFromDatestampTags ?? []) {
     const v = t[tagName];
-- 
2.43.0


From 201c08df350a69812be812023bf4f4f68cb922d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 22/33] fix: parseJSON() leaves structures with a "_ctor" field
 of their own alone

---
 src/JSON.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..2c2a76a 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -44,7 +44,9 @@ export function parseJSON(s: string) {
       "_ctor" in value &&
       typeof value._ctor === "string"
     ) {
-      return Revivers[value._ctor]?.(value as JsonObject) ?? value;
+      return Object.hasOwn(Revivers, value._ctor)
+        ? (Revivers[value._ctor]?.(value as JsonObject) ?? value)
+        : value;
     }
     if (key === "invalidUtf8Bytes") {
       return reviveInvalidUtf8Bytes(value);
-- 
2.43.0


From d577e29211d7a4735dad93752e9018098d12d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:08 +0000
Subject: [PATCH 23/33] fix: the tag description language is taken literally

A language with regular expression characters matched other languages or
made every lookup reject, and one with path separators named a cache file
outside of the cache directory.
---
 src/TagDescriptions.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 8fb2ab0..ee1b02c 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -495,7 +495,8 @@ export class TagDescriptions {
   #getCacheFilename(version: string, lang: string): string {
     return join(
       this.#getCacheDir(),
-      `tag-descriptions-${version}-${lang}.json`,
+      // the language must not be able to name another directory:
+      `tag-descriptions-${version}-${encodeURIComponent(lang)}.json`,
     );
   }
 
@@ -563,7 +564,7 @@ export class TagDescriptions {
     const tagRegex =
       /<tag[^>]*\sname=['"]([^'"]+)['"][^>]*>([\s\S]*?)<\/tag>/gi;
     const descRegex = new RegExp(
-      `<desc\\s+lang=['"]${lang}['"]>([^<]+)</desc>`,
+      `<desc\\s+lang=['"]${lang.replace(/[^\w-]/g, "\\$&")}['"]>([^<]+)</desc>`,
       "i",
     );
 
-- 
2.43.0


From 11ccd813f372437899cad031ebc01cd4bdc7b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 24/33] fix: an undefined tag description language means
 English

{ language: undefined } left the curated descriptions out, also from the
shared cache that other processes read them from.
---
 src/TagDescriptions.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index ee1b02c..cb55c6e 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -366,9 +366,10 @@ export class TagDescriptions {
   constructor(exiftool: ExifTool, options?: TagDescriptionsOptions) {
     this.#exiftool = exiftool;
     this.#options = {
-      language: "en",
       disableDiskCache: false,
       ...options,
+      // (an explicitly undefined language is the default, too)
+      language: options?.language ?? "en",
     };
   }
 
-- 
2.43.0


From e0da8f606e8d0d8caecaf787d1ad085d08631549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:01 +0000
Subject: [PATCH 25/33] fix: a TimeStamp without a zone is not compared in the
 system timezone

With inferTimezoneFromTimeStamp, reads of the same file returned different
zones on systems in different timezones.
---
 src/Timezones.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 842451a..17ba420 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1178,7 +1178,9 @@ export function extractTzOffsetFromTimeStamp(
   // ExifTool renders some TimeStamp values as a number
   if (!isString(rawTs) && !(rawTs instanceof ExifDateTime)) return;
   const ts = ExifDateTime.from(rawTs);
-  if (ts == null) return;
+  // Without a zone, this isn't an instant that local times can be compared with
+  // (and it must not be taken to be in the system timezone).
+  if (ts == null || !ts.hasZone) return;
   for (const tagName of opts.inferTimezoneFromDatestampTags ?? []) {
     const v = t[tagName];
     if (!isString(v) && !(v instanceof ExifDateTime)) continue;
-- 
2.43.0


From 3b8c75e6c1e27b3f2ca937d95644070f53287728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:15 +0000
Subject: [PATCH 26/33] fix: write() results don't count created directories as
 files

---
 src/WriteTask.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 395bad2..bf9001e 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -295,6 +295,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     let unchanged = 0;
 
     for (const line of splitLines(data)) {
+      // "created" counts files:
+      if (DirectoriesCreatedRE.test(line)) continue;
+
       const m_created = CreatedRE.exec(line)?.groups?.count;
       if (m_created != null) {
         created += toInt(m_created) ?? 0;
@@ -333,6 +336,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
   }
 }
 
+// Reported if output was redirected (with -o) to a new directory:
+const DirectoriesCreatedRE = /\d{1,5} directories created$/i;
+
 // "0 files created" | "0 file created" | "    1 image files created"
 const CreatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bcreated$/i;
 
-- 
2.43.0


From 5fa356d72ab5ca911411984f27b9715786008df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:04 +0000
Subject: [PATCH 27/33] fix: a time of day in a date tag is not taken for
 today's date

---
 src/ExifDate.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 05a284b..816f244 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -33,6 +33,7 @@ export type ExifDatePartial = ExifDateYearOnly | ExifDateYearMonth;
 const StrictExifRE = /^\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2}$/;
 const YearMonthRE = /^\d{1,4}[:-]\d{1,2}$/;
 const YearOnlyRE = /^\d{1,4}$/;
+const TimeOfDayRE = /^\d{1,2}:/;
 const LooseExifRE = /^\S+\s+\S+\s+\S+$/;
 
 /**
@@ -53,7 +54,9 @@ export class ExifDate {
     );
   }
   static fromISO(text: string): Maybe<ExifDate> {
-    return StrictExifRE.test(toS(text).trim())
+    // Luxon parses a time of day, like "12:34:56", as that time _today_.
+    const s = toS(text).trim();
+    return StrictExifRE.test(s) && !TimeOfDayRE.test(s)
       ? this.fromDateTime(DateTime.fromISO(text), text)
       : undefined;
   }
-- 
2.43.0


From f8edaaa091f50a8f09702108e5dbc3f646ac96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:23 +0000
Subject: [PATCH 28/33] fix: curated tag descriptions replace those in caches
 of other library versions

---
 src/TagDescriptions.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cb55c6e..6481e60 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -464,6 +464,8 @@ export class TagDescriptions {
     if (!this.#options.disableDiskCache) {
       const cached = this.#readDiskCache(version, lang);
       if (cached != null) {
+        // (it may have been written by another version of this library)
+        this.#applyCurated(cached);
         this.#cacheSync = cached;
         return cached;
       }
@@ -475,10 +477,7 @@ export class TagDescriptions {
     // Parse XML and extract descriptions
     const parsed = this.#parseListX(xml, lang);
 
-    // Merge with curated descriptions (curated takes priority, English only)
-    for (const [name, desc] of Object.entries(this.#curated)) {
-      parsed.set(name, desc);
-    }
+    this.#applyCurated(parsed);
 
     // Write to disk cache
     if (!this.#options.disableDiskCache) {
@@ -489,6 +488,13 @@ export class TagDescriptions {
     return parsed;
   });
 
+  // Merge with curated descriptions (curated takes priority, English only)
+  #applyCurated(descriptions: Map<string, TagDescription>): void {
+    for (const [name, desc] of Object.entries(this.#curated)) {
+      descriptions.set(name, desc);
+    }
+  }
+
   #getCacheDir(): string {
     return this.#options.cacheDir ?? join(tmpdir(), "exiftool-vendored");
   }
-- 
2.43.0


From 7b58f322ee6bcdd5fd332b5ef7288abaad00475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:55 +0000
Subject: [PATCH 29/33] fix: write() keeps leading whitespace of text values

ExifTool ignores one space after the "=" of an argument, and whitespace
before the value of a structure field, so write() stored " x" as "x" and
deleted the tag when asked to store " ". editTags() already protected
them.
---
 src/WriteTask.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index bf9001e..fc9fcb2 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,18 +45,15 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (htmlDecodeLayers > 0 && /^\s/.test(o) ? "|" : "") +
+      ? (/^\s/.test(o) ? "|" : "") +
         o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
-    if (
-      !structValue &&
-      htmlDecodeLayers > 0 &&
-      entityProtected.startsWith(" ")
-    ) {
+    // ExifTool ignores one space after the "=" in argument files:
+    if (!structValue && entityProtected.startsWith(" ")) {
       entityProtected = "&#32;" + entityProtected.slice(1);
     }
     return htmlEncode(entityProtected);
-- 
2.43.0


From 868db5a15eeae75dd83991d9dd388bf8c0774185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 30/33] fix: a Logger given as logger option no longer crashes
 the process

The documented `logger: console` (or an object without `trace`) was handed to
BatchCluster as is, which calls it as a function, within timers and event
listeners: an uncaught TypeError.
---
 src/ExifTool.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4f68849..4ccf4fe 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -224,6 +224,18 @@ const whichPerl = lazy(async () => {
   return result;
 });
 
+/**
+ * A `Logger` given by the caller may lack levels (like `trace`).
+ */
+function completeLogger(delegate: Partial<bc.Logger>): () => bc.Logger {
+  const result: bc.Logger = { ...bc.NoLogger };
+  for (const level of bc.LogLevels) {
+    const f = delegate[level];
+    if (isFunction(f)) result[level] = f.bind(delegate);
+  }
+  return () => result;
+}
+
 /**
  * Manages delegating calls to a cluster of ExifTool child processes.
  *
@@ -262,8 +274,10 @@ export class ExifTool {
     if (options_logger != null) {
       const providedLogger = isFunction(options_logger)
         ? options_logger
-        : () => options_logger;
+        : completeLogger(options_logger);
       Settings.logger.value = providedLogger;
+      // BatchCluster requires a function:
+      o.logger = providedLogger;
     }
 
     const ignoreShebang = o.ignoreShebang ?? _ignoreShebang();
-- 
2.43.0


From c0f4ddbefa0166ffbca8049a3f05719e1413a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 31/33] fix: a call is not altered by what its caller does to
 its arguments later

Tasks were rendered after waiting for perl to be found (and options of
extractions and rewrites spread again for every retry), so reusing a tags,
edits or options object after the call changed what was written.
---
 src/ExifTool.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4ccf4fe..d7036da 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -729,12 +729,13 @@ export class ExifTool {
     dest: string,
     opts?: BinaryExtractionTaskOptions,
   ): Promise<void> {
+    const o = { ...opts }; // < retries must not see later changes by the caller
     // BinaryExtractionTask returns a stringified error if the output indicates
     // the task should not be retried.
     const maybeError = await this.enqueueTask(() =>
       BinaryExtractionTask.for(tagname, src, dest, {
         ...pick(this.options, "ignoreMinorErrors", "forceWrite"),
-        ...opts,
+        ...o,
       }),
     );
     if (maybeError != null) {
@@ -762,10 +763,11 @@ export class ExifTool {
     imageFile: string,
     opts?: ExifToolTaskOptions,
   ): Promise<Buffer> {
+    const o = { ...opts }; // < retries must not see later changes by the caller
     const result = await this.enqueueTask(() =>
       BinaryToBufferTask.for(tagname, imageFile, {
         ...this.#taskOptions(),
-        ...opts,
+        ...o,
       }),
     );
     if (Buffer.isBuffer(result)) {
@@ -803,11 +805,12 @@ export class ExifTool {
     outputFile: string,
     opts?: { allowMakerNoteRepair?: boolean } & ExifToolTaskOptions,
   ): Promise<void> {
+    const o = { ...opts }; // < retries must not see later changes by the caller
     return this.enqueueTask(() =>
       RewriteAllTagsTask.for(inputFile, outputFile, {
         allowMakerNoteRepair: false,
         ...this.#taskOptions(),
-        ...opts,
+        ...o,
       }),
     );
   }
@@ -850,8 +853,11 @@ export class ExifTool {
    */
   enqueueTask<T>(task: () => ExifToolTask<T>, retriable = true): Promise<T> {
     const f = async () => {
+      // Render the task before waiting for anything: the caller may reuse the
+      // objects it passed in as soon as we return.
+      const t = task();
       await this.#checkForPerl();
-      return this.batchCluster.enqueueTask(task());
+      return this.batchCluster.enqueueTask(t);
     };
     return retriable ? retryOnReject(f, this.options.taskRetries) : f();
   }
-- 
2.43.0


From 08c8378c1469fdd8129087ff34fb37f2ce3b14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:41 +0000
Subject: [PATCH 32/33] fix: write() reports counts of 100000 files and more
 correctly

Only the last five digits of ExifTool's counts were read.
---
 src/WriteTask.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index fc9fcb2..cd86afc 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -337,10 +337,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 const DirectoriesCreatedRE = /\d{1,5} directories created$/i;
 
 // "0 files created" | "0 file created" | "    1 image files created"
-const CreatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bcreated$/i;
+const CreatedRE = /(?<count>\d{1,10}) [\w ]{1,12}\bcreated$/i;
 
 const UnchangedRE =
-  /(?<count>\d{1,5}) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
+  /(?<count>\d{1,10}) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
 
 // "1 image files updated"
-const UpdatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bupdated$/i;
+const UpdatedRE = /(?<count>\d{1,10}) [\w ]{1,12}\bupdated$/i;
-- 
2.43.0


From 0bd597ab0d39c2df6d8c975926bb407b0e5a42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:51 +0000
Subject: [PATCH 33/33] fix: reads with group names (-G, -g) list ExifTool's
 error and warning

With -G the tags are called ExifTool:Error and ExifTool:Warning, and with -g
they are nested: errors and warnings were always empty then.
---
 src/ErrorsAndWarnings.ts | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ErrorsAndWarnings.ts b/src/ErrorsAndWarnings.ts
index f37b5aa..c180e49 100644
--- a/src/ErrorsAndWarnings.ts
+++ b/src/ErrorsAndWarnings.ts
@@ -1,5 +1,6 @@
 import { uniq } from "./Array";
 import { ExifToolTask } from "./ExifToolTask";
+import { Maybe } from "./Maybe";
 import { compactBlanks, toNotBlank, toS } from "./String";
 
 export interface ErrorsAndWarnings {
@@ -18,10 +19,28 @@ export interface ErrorsAndWarnings {
   warnings?: string[];
 }
 
+interface MessageTags {
+  Error?: Maybe<string>;
+  Warning?: Maybe<string>;
+}
+
+/**
+ * If `readArgs` asked for group names (`-G` or `-g`), ExifTool prefixes tags
+ * with their group, or nests them in it.
+ */
+function ungrouped(t: Maybe<object>): MessageTags {
+  const tags: Record<string, unknown> = { ...t };
+  const group: Record<string, unknown> = { ...(tags.ExifTool as object) };
+  const get = (k: string) =>
+    (tags[k] ?? tags["ExifTool:" + k] ?? group[k]) as Maybe<string>;
+  return { Error: get("Error"), Warning: get("Warning") };
+}
+
 export function errorsAndWarnings(
   task: ExifToolTask<unknown>,
-  t?: { Error?: string; Warning?: string },
+  t?: MessageTags,
 ): Required<ErrorsAndWarnings> {
+  t = ungrouped(t);
   return {
     errors: uniq(compactBlanks([t?.Error, ...task.errors])),
     warnings: uniq(compactBlanks([t?.Warning, ...task.warnings])),
-- 
2.43.0

