From a8f431bb1499feb05aa46a76c682638d0be0c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 01/40] fix: C source generator must report write failures of
 its functions

The return value of gen_functions() was ignored and one branch of
gen_bind() returned zero (nothing bound) instead of -1, so that a failed
write produced truncated output and a success status.  Also release the
fill dependencies on early exit.
---
 lang-c-source.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..4119c6b 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -431,7 +431,7 @@ gen_bind(FILE *f, const struct field *fd, size_t idx,
 	if (fd->type == FTYPE_BLOB) {
 		for (i = 0; i < tabs; i++)
 			if (fputc('\t', f) == EOF)
-				return 0;
+				return -1;
 		if (fprintf(f, "parms[%zu].sz = v%zu_sz;\n",
 		    idx - 1, pos) < 0)
 			return -1;
@@ -2829,7 +2829,8 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	size_t			 sz;
 	int			 need_kcgi = 0,
 				 need_kcgijson = 0,
-				 need_sqlbox = 0;
+				 need_sqlbox = 0,
+				 rc = 0;
 	struct filldepq		 fq;
 	struct filldep		*fd;
 
@@ -3087,20 +3088,23 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	TAILQ_FOREACH(p, &cfg->sq, entries)
 		TAILQ_FOREACH(s, &p->sq, entries)
 			if (!gen_filldep(&fq, p, FILLDEP_FILL_R))
-				return 0;
+				goto out;
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		gen_functions(f, cfg, p,
-			args->flags & ORT_LANG_C_JSON_KCGI,
-			args->flags & ORT_LANG_C_JSON_JSMN,
-			args->flags & ORT_LANG_C_VALID_KCGI,
-			args->flags & ORT_LANG_C_DB_SQLBOX, &fq);
+		if (!gen_functions(f, cfg, p,
+		    args->flags & ORT_LANG_C_JSON_KCGI,
+		    args->flags & ORT_LANG_C_JSON_JSMN,
+		    args->flags & ORT_LANG_C_VALID_KCGI,
+		    args->flags & ORT_LANG_C_DB_SQLBOX, &fq))
+			goto out;
 
+	rc = 1;
+out:
 	while ((fd = TAILQ_FIRST(&fq)) != NULL) {
 		TAILQ_REMOVE(&fq, fd, entries);
 		free(fd);
 	}
 
-	return 1;
+	return rc;
 }
 
-- 
2.43.0


From c0c128f9703aabcc177dbcc16b82ec27077a963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 02/40] fix: nodejs generator must report all write failures

gen_query_checkpass() was not checked and gen_var(), gen_rolemap()
returned their non-failure value when writing failed.
---
 lang-nodejs.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..f419d40 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -134,7 +134,7 @@ gen_var(FILE *f, size_t pos, size_t col, const struct field *fd)
 	    (fd->type == FTYPE_STRUCT &&
 	     (fd->ref->source->flags & FIELD_NULL))) {
 		if ((rc = fprintf(f, "|null")) < 0)
-			return 0;
+			return -1;
 		col += (size_t)rc;
 	}
 
@@ -179,15 +179,15 @@ gen_rolemap(FILE *f, const struct rolemap *rm)
 		return 0;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
+		return -1;
 	TAILQ_FOREACH(rr, &rm->rq, entries)
 		if (!gen_role(f, rr->role, 2))
-			return 0;
+			return -1;
 
 	return fputs("\t\t\tbreak;\n"
 	     "\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
-	     "\t\t}\n", f) != EOF;
+	     "\t\t}\n", f) == EOF ? -1 : 1;
 }
 
 /*
@@ -1210,7 +1210,8 @@ gen_query(FILE *f, const struct config *cfg,
 		       if (fprintf(f, "\t\tthis.db_%s_reffind"
 			   "(this.#o, obj);\n", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f, "\t\treturn new "
 	  	    "ortns.%s(this.#role, obj);\n", rs->name) < 0)
 			return 0;
@@ -1227,7 +1228,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tcb(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n", rs->name) < 0)
@@ -1249,7 +1251,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tobjs.push(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n"
-- 
2.43.0


From f333424c410b6eebb9fa33b0d7ef06943baa35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 03/40] fix: rust generator must report all write failures

gen_query_checkpass() was not checked and gen_var(),
gen_field_to_json() returned a non-failure value when writing failed.
---
 lang-rust.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1df62c3..e306b86 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -182,22 +182,22 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	if (fprintf(f, "v%zu: ", pos) < 0)
 		return -1;
 	if ((fd->flags & FIELD_NULL) && fputs("Option<", f) == EOF)
-		return 0;
+		return -1;
 	if (fd->type == FTYPE_ENUM) {
 		if (fprintf(f, "data::%c%s",
 		    toupper((unsigned char)fd->enm->name[0]),
 		    fd->enm->name + 1) < 0)
-			return 0;
+			return -1;
 	} else {
 		if (strcmp(ftypes[fd->type], "i64") &&
 		    strcmp(ftypes[fd->type], "f64"))
 			if (fputc('&', f) == EOF)
-				return 0;
+				return -1;
 		if (fputs(ftypes[fd->type], f) == EOF)
-			return 0;
+			return -1;
 	}
 	if ((fd->flags & FIELD_NULL) && fputs(">", f) == EOF)
-		return 0;
+		return -1;
 	return 1;
 }
 
@@ -215,14 +215,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 	if (fd->rolemap != NULL &&
 	    !TAILQ_EMPTY(&fd->rolemap->rq)) {
 		if (fprintf(f, "%16sif !(", "") < 0)
-			return 0;
+			return -1;
 		TAILQ_FOREACH(r, &fd->rolemap->rq, entries) {
 			rc = gen_role(f, r->role, 5, "role", rc, 1);
 			if (rc < 0)
-				return 0;
+				return -1;
 		}
 		if (fputs(") {\n", f) == EOF)
-			return 0;
+			return -1;
 		tabs += 4;
 	}
 
@@ -365,7 +365,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 	}
 
 	if (fd->rolemap != NULL && fprintf(f, "%16s}\n", "") < 0)
-		return 0;
+		return -1;
 
 	return 1;
 }
@@ -1334,7 +1334,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f,
 		    "%16sreturn Ok(Some(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1362,7 +1363,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16scb(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1391,7 +1393,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16svec.push(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
-- 
2.43.0


From 72364f3d51d32df70ebd88a5d1507cdc1994c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 04/40] fix: C manpage generator with no inserts, and write
 failures of inserts

gen_inserts() used zero for both "nothing to do" and failure: without
any insert the generator failed half way, and failing to write an insert
was treated as success.
---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..24bc9bf 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From c547de848536c74d6828d6d5a4ee9f333c4cf39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 05/40] fix: report write failures of the diff header

---
 writer-diff.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..e127f3e 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -1092,14 +1092,16 @@ ort_write_diff_file(FILE *f, const struct diffq *q,
 	size_t			 i;
 
 	for (i = 0; i < fromsz; i++)
-		fprintf(f, "--- %s\n", from[i]);
-	if (fromsz == 0)
-		fprintf(f, "--- <stdin>\n");
+		if (fprintf(f, "--- %s\n", from[i]) < 0)
+			return 0;
+	if (fromsz == 0 && fprintf(f, "--- <stdin>\n") < 0)
+		return 0;
 
 	for (i = 0; i < intosz; i++)
-		fprintf(f, "+++ %s\n", into[i]);
-	if (intosz == 0)
-		fprintf(f, "+++ <stdin>\n");
+		if (fprintf(f, "+++ %s\n", into[i]) < 0)
+			return 0;
+	if (intosz == 0 && fprintf(f, "+++ <stdin>\n") < 0)
+		return 0;
 
 	/* Write enumerations iff any have changed. */
 
-- 
2.43.0


From e9da047ea0ae52183733fe85a998c266b2605a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 06/40] fix: ort-xliff and ort-sqldiff exit status on system
 failure, unflushed output

The libraries return <0 on system failure (as documented), which both
utilities turned into a successful exit status.  Also notice output that
can't be flushed to standard output.
---
 sqldiff.c | 7 +++++--
 xliff.c   | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..9f49150 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -150,7 +150,10 @@ main(int argc, char *argv[])
 		goto out;
 	}
 
-	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)))
+	rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq);
+	if (rc > 0 && fflush(stdout) == EOF)
+		rc = -1;
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -169,7 +172,7 @@ out:
 
 	free(confs);
 	free(dconfs);
-	return rc ? EXIT_SUCCESS : EXIT_FAILURE;
+	return rc > 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 
 usage:
 	fprintf(stderr, 
diff --git a/xliff.c b/xliff.c
index ad30878..38e0d62 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,7 +172,9 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (!rc)
+	if (rc > 0 && fflush(stdout) == EOF)
+		rc = -1;
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -193,7 +195,7 @@ out:
 
 	free(confs);
 	free(args.in);
-	return !rc;
+	return rc <= 0;
 usage:
 	fprintf(stderr, 
 		"usage: %s [-c] -j [config...] -x [xliff...]\n"
-- 
2.43.0


From 0462b09d55feb3ddaaf75089bb5ddafe04633bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 07/40] fix: notice output that can't be flushed to standard
 output

Output that fits the stdio buffer is only written when exiting, where a
failure (such as a full disk) went unnoticed: exit with failure instead.
---
 audit-json.c | 3 ++-
 cheader.c    | 3 ++-
 cmanpage.c   | 3 ++-
 csource.c    | 3 ++-
 javascript.c | 3 ++-
 json.c       | 3 ++-
 main.c       | 3 ++-
 mainaudit.c  | 3 ++-
 maindiff.c   | 5 +++--
 nodejs.c     | 3 ++-
 rust.c       | 3 ++-
 sql.c        | 3 ++-
 12 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..287e08c 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -514,7 +514,8 @@ main(int argc, char *argv[])
 	}
 
 	gen_audit_json(cfg, aq, r, standalone);
-	rc = 1;
+	if (!(rc = fflush(stdout) != EOF && !ferror(stdout)))
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/cheader.c b/cheader.c
index b83027f..b668538 100644
--- a/cheader.c
+++ b/cheader.c
@@ -110,7 +110,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_header(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_header(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/cmanpage.c b/cmanpage.c
index 16a2e20..efdfd60 100644
--- a/cmanpage.c
+++ b/cmanpage.c
@@ -93,7 +93,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/csource.c b/csource.c
index 6400838..48f8da4 100644
--- a/csource.c
+++ b/csource.c
@@ -168,7 +168,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_source(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_source(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/javascript.c b/javascript.c
index 5bddea4..1a856e7 100644
--- a/javascript.c
+++ b/javascript.c
@@ -144,7 +144,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_javascript(cfg, &args, stdout)))
+		if (!(rc = ort_lang_javascript(cfg, &args, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/json.c b/json.c
index 16178b9..e4193b3 100644
--- a/json.c
+++ b/json.c
@@ -81,7 +81,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_json(&args, cfg, stdout)))
+		if (!(rc = ort_lang_json(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/main.c b/main.c
index 98fe232..0de3c37 100644
--- a/main.c
+++ b/main.c
@@ -74,7 +74,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_write_file(stdout, cfg)))
+		if (!(rc = ort_write_file(stdout, cfg)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/mainaudit.c b/mainaudit.c
index 591dd14..fd8cd1c 100644
--- a/mainaudit.c
+++ b/mainaudit.c
@@ -263,7 +263,8 @@ main(int argc, char *argv[])
 	}
 
 	audit_write(aq, verb);
-	rc = 1;
+	if (!(rc = fflush(stdout) != EOF && !ferror(stdout)))
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/maindiff.c b/maindiff.c
index bfec866..b70f792 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -165,8 +165,9 @@ main(int argc, char *argv[])
 
 	if (!ort_write_diff_file(stdout, q, 
 	    (const char *const *)&argv[confst], confsz,
-	    (const char *const *)argv, dconfsz)) {
-		rc = -1;
+	    (const char *const *)argv, dconfsz) ||
+	    fflush(stdout) == EOF) {
+		rc = 2;
 		warn(NULL);
 	}
 
diff --git a/nodejs.c b/nodejs.c
index 0463a41..b65cf82 100644
--- a/nodejs.c
+++ b/nodejs.c
@@ -95,7 +95,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)))
+		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/rust.c b/rust.c
index 20ef3a9..ce95bd5 100644
--- a/rust.c
+++ b/rust.c
@@ -79,7 +79,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_rust(&args, cfg, stdout)))
+		if (!(rc = ort_lang_rust(&args, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sql.c b/sql.c
index fc4cda4..7a12690 100644
--- a/sql.c
+++ b/sql.c
@@ -76,7 +76,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_sql(NULL, cfg, stdout)))
+		if (!(rc = ort_lang_sql(NULL, cfg, stdout)) ||
+		    !(rc = fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
-- 
2.43.0


From 6c4d2c95f98ff1a5f8b5bdaeb4a8a46f5ab0a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 08/40] fix: linker must fail when out of memory resolving
 query chains

---
 linker_resolve.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..a7b014c 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -93,7 +93,7 @@ resolve_struct_order(struct config *cfg, struct struct_order *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
@@ -121,7 +121,7 @@ resolve_struct_aggr(struct config *cfg, struct struct_aggr *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
@@ -151,7 +151,7 @@ resolve_struct_grouprow(struct config *cfg, struct struct_grouprow *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
@@ -210,7 +210,7 @@ resolve_struct_distinct(struct config *cfg, struct struct_distinct *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
-- 
2.43.0


From 4208a221b058939aaf69b2a20513ad930b307e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 09/40] fix: input that ends within a declaration must be
 rejected

---
 parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 11cd1d5..f047129 100644
--- a/parser.c
+++ b/parser.c
@@ -460,7 +460,7 @@ again:
 
 	if ('-' == c) {
 		c = parse_nextchar(p);
-		if (parse_check_error_eof(p))
+		if (parse_check_error(p))
 			return(parse_read_err(p));
 		if ( ! isdigit(c))
 			return(parse_errx(p, "expected digit"));
@@ -747,6 +747,13 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* The input may not end within a declaration. */
+
+		if (p->lasttype == TOK_EOF) {
+			parse_errx(p, "unexpected end of file");
+			return 0;
+		}
 	}
 
 	return 1;
-- 
2.43.0


From 1b6988af40f8f6b3ab9201960813d8dd1f63d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:09 +0000
Subject: [PATCH 10/40] fix: compare label languages by name when diffing
 configurations

---
 diff.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..5bca8eb 100644
--- a/diff.c
+++ b/diff.c
@@ -82,10 +82,13 @@ ort_check_rolemap_roles(const struct rolemap *from,
 
 /*
  * Make sure that the queue of labels contains the same data.
+ * Languages are compared by name: their indices are particular to each
+ * configuration.
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from,
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +106,8 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			if (strcmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,6 +224,7 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitidx *ifrom, const struct bitidx *iinto)
 {
 	struct diff	*d;
@@ -244,7 +249,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,6 +442,7 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct eitem *ifrom, const struct eitem *iinto)
 {
 	struct diff	*d;
@@ -468,7 +475,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,6 +496,7 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitf *efrom, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
@@ -504,7 +513,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx(q,
+		    cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -534,9 +544,11 @@ ort_diff_bitf(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
+	     (cfrom, &efrom->labels_unset,
+	      cinto, &einto->labels_unset) ||
 	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	     (cfrom, &efrom->labels_null,
+	      cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,6 +1293,7 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct enm *efrom, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
@@ -1297,7 +1310,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem(q,
+		    cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1326,7 +1340,8 @@ ort_diff_enm(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	    (cfrom, &efrom->labels_null,
+	     cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1377,7 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf(q, from, into, efrom, einto))
 			return 0;
 	}
 
@@ -1612,7 +1627,7 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm(q, from, into, efrom, einto))
 			return 0;
 	}
 
-- 
2.43.0


From 9dcac788e7be69458b7ecb4ff3dac29a99fc9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 11/40] fix: diff output must list removed roles

---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index e127f3e..034656f 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From 55eb2a2abfa302ef14bf57cca40d2b7b48a842ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 12/40] fix: comments ending in a newline must not swallow the
 following line

---
 lang.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..8082eca 100644
--- a/lang.c
+++ b/lang.c
@@ -224,9 +224,13 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 			curcol++;
 		}
 
-		/* Newline-terminate. */
+		/*
+		 * Newline-terminate.
+		 * If the last character was itself a newline, we've
+		 * already started another in-comment line.
+		 */
 
-		if (last != '\n' && fputc('\n', f) == EOF)
+		if (fputc('\n', f) == EOF)
 			return 0;
 	}
 
-- 
2.43.0


From 7b793acd4d64a747719d4cc6d42334b872828509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 13/40] fix: write default dates in the form that the parser
 accepts

---
 writer.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/writer.c b/writer.c
index 7c3b094..44c11c8 100644
--- a/writer.c
+++ b/writer.c
@@ -27,6 +27,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 
@@ -184,6 +185,24 @@ parse_write_comment(struct writer *w, const char *cp, size_t tabs)
 	return wputs(w, "\"");
 }
 
+/*
+ * Write the default date, given as the epoch of midnight local time, the
+ * way that the parser accepts it.
+ * Returns zero on failure, non-zero otherwise.
+ */
+static int
+parse_write_date(struct writer *w, int64_t v)
+{
+	time_t		 t = (time_t)v;
+	struct tm	*tm;
+
+	if ((tm = localtime(&t)) == NULL)
+		return 0;
+	return wprint(w, " default %lld-%.2d-%.2d", 
+		(long long)tm->tm_year + 1900, 
+		tm->tm_mon + 1, tm->tm_mday);
+}
+
 /*
  * Write a structure field.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -246,12 +265,14 @@ parse_write_field(struct writer *w, const struct field *p)
 		switch (p->type) {
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
 				p->def.integer);
 			break;
+		case FTYPE_DATE:
+			rc = parse_write_date(w, p->def.integer);
+			break;
 		case FTYPE_REAL:
 			rc = wprint(w, " default %g",
 				p->def.decimal);
-- 
2.43.0


From a70f53da004b83f24a6b5113ec4433866a05d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 14/40] fix: do not abort when writing limits of bit-field
 fields

---
 lang-json.c | 1 +
 writer.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lang-json.c b/lang-json.c
index d45bf02..2373035 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -623,6 +623,7 @@ gen_field(FILE *f, const struct field *fd)
 			return 0;
 		switch (fd->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
diff --git a/writer.c b/writer.c
index 44c11c8..45357e0 100644
--- a/writer.c
+++ b/writer.c
@@ -302,6 +302,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	TAILQ_FOREACH(fv, &p->fvq, entries) 
 		switch (p->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-- 
2.43.0


From 03d9c03d39b30daecd55d3b77e4632ca96db61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 15/40] fix: write decimals exactly and without exponents,
 which the parser rejects

---
 writer.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/writer.c b/writer.c
index 45357e0..6097ecd 100644
--- a/writer.c
+++ b/writer.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <float.h>
 #include <inttypes.h>
 #include <stdarg.h>
 #include <stdio.h>
@@ -185,6 +186,31 @@ parse_write_comment(struct writer *w, const char *cp, size_t tabs)
 	return wputs(w, "\"");
 }
 
+/*
+ * Write a decimal in its shortest exact form without an exponent, which
+ * the parser doesn't accept.
+ * Returns zero on failure, non-zero otherwise.
+ */
+static int
+parse_write_decimal(struct writer *w, double v)
+{
+	char	 buf[DBL_MAX_10_EXP + 1100];
+	int	 prec;
+
+	for (prec = 0; prec < 1074; prec++) {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+
+	/* Whole numbers beyond an integer's range need the full-stop. */
+
+	if (prec == 0 && (v >= INT64_MAX || v <= -(double)INT64_MAX))
+		prec = 1;
+
+	return wprint(w, "%.*f", prec, v);
+}
+
 /*
  * Write the default date, given as the epoch of midnight local time, the
  * way that the parser accepts it.
@@ -274,8 +300,8 @@ parse_write_field(struct writer *w, const struct field *p)
 			rc = parse_write_date(w, p->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wputs(w, " default ") &&
+				parse_write_decimal(w, p->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -311,8 +337,9 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s ", vtypes[fv->type]))
+				return 0;
+			if (!parse_write_decimal(w, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 42dbcfff9738a251b2f6cff584a69c07c39cfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 16/40] fix: generate decimals exactly instead of with six
 digits

---
 lang-c-source.c | 10 ++++++----
 lang-json.c     | 25 ++++++++++++++++++++++---
 lang-nodejs.c   |  9 +++++----
 lang-sql.c      |  2 +-
 lang.c          | 18 ++++++++++++++++++
 lang.h          |  1 +
 6 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 4119c6b..df5435e 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2026,10 +2026,12 @@ gen_valids_field(FILE *f,
 			return 0;
 		break;
 	case FTYPE_REAL:
-		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
-		    "\t\treturn 0;\n",
-		    validbins[v->type], v->d.value.decimal) < 0)
+		if (fprintf(f, "\tif (p->parsed.d %s ",
+		    validbins[v->type]) < 0)
+			return 0;
+		if (!gen_decimal(f, v->d.value.decimal))
+			return 0;
+		if (fputs(")\n\t\treturn 0;\n", f) == EOF)
 			return 0;
 		break;
 	default:
diff --git a/lang-json.c b/lang-json.c
index 2373035..6df6ea2 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -157,6 +157,24 @@ gen_string(FILE *f, const char *cp)
 	return fputc('\"', f) != EOF;
 }
 
+/*
+ * Print the shortest form of the decimal that has its exact value.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_decimal(FILE *f, double v)
+{
+	char	 buf[64];
+	int	 prec;
+
+	for (prec = 6; prec < 17; prec++) {
+		snprintf(buf, sizeof(buf), "%.*g", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	return fprintf(f, "%.*g", prec, v) >= 0;
+}
+
 /*
  * Generate a full rolemap: rolemapObj[] w/o comma.
  * Return zero on failure, non-zero on success.
@@ -589,7 +607,9 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (fputc('"', f) == EOF ||
+			    !gen_decimal(f, fd->def.decimal) ||
+			    fputc('"', f) == EOF)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -632,8 +652,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
-			    fv->d.value.decimal) < 0)
+			if (!gen_decimal(f, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
diff --git a/lang-nodejs.c b/lang-nodejs.c
index f419d40..eaadacd 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1648,10 +1648,11 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
-			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
-			    "\t\t\t\treturn null;\n", 
-			    vtypes[fv->type], fv->d.value.decimal) < 0)
+			if (fprintf(f, "\t\t\tif (!(nv %s ",
+			    vtypes[fv->type]) < 0 ||
+			    !gen_decimal(f, fv->d.value.decimal) ||
+			    fputs("))\n\t\t\t\treturn null;\n", 
+			    f) == EOF)
 				return 0;
 		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..f591780 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -305,7 +305,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			rc = gen_decimal(f, fd->def.decimal) ? 0 : -1;
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
diff --git a/lang.c b/lang.c
index 8082eca..2bb2b9a 100644
--- a/lang.c
+++ b/lang.c
@@ -325,6 +325,24 @@ gen_commentv(FILE *f, size_t tabs, enum cmtt t, const char *fmt, ...)
 	return c;
 }
 
+/*
+ * Print the shortest form of the decimal that has its exact value.
+ * Return zero on failure, non-zero on success.
+ */
+int
+gen_decimal(FILE *f, double v)
+{
+	char	 buf[64];
+	int	 prec;
+
+	for (prec = 6; prec < 17; prec++) {
+		snprintf(buf, sizeof(buf), "%.*g", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	return fprintf(f, "%.*g", prec, v) >= 0;
+}
+
 static int
 gen_ws(FILE *f, size_t tabs, enum langt lang)
 {
diff --git a/lang.h b/lang.h
index b2ea72b..c45e453 100644
--- a/lang.h
+++ b/lang.h
@@ -35,6 +35,7 @@ enum	langt {
 	LANG_RUST
 };
 
+int	 gen_decimal(FILE *, double);
 int	 gen_comment(FILE *, size_t, enum cmtt, const char *);
 int	 gen_commentv(FILE *, size_t, enum cmtt, const char *, ...)
 		__attribute__((format(printf, 4, 5)));
-- 
2.43.0


From 3b187c061495b17c27aa9d2a4719445824f68950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 17/40] fix: quote default strings in SQL updates

---
 lang-sql.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index f591780..5904ef1 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -263,6 +263,28 @@ ort_lang_sql(const struct ort_lang_sql *args,
 	return 1;
 }
 
+/*
+ * Generate an SQL string literal: unescape the double-quotes, which are
+ * escaped in ort(3), and escape the single-quotes.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_string(FILE *f, const char *cp)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *cp != '\0'; cp++) {
+		if (cp[0] == '\\' && cp[1] == '"')
+			continue;
+		if (*cp == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*cp, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
 /*
  * This is the ALTER TABLE version of the field generators in
  * gen_struct().
@@ -309,7 +331,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
+			rc = gen_string(f, fd->def.string) ? 0 : -1;
 			break;
 		case FTYPE_ENUM:
 			rc = fprintf(f, "%" PRId64, 
-- 
2.43.0


From 95a129186cd1bd347b7a1590d929cfab917a6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 18/40] fix: escape backslashes in JSON exported by Rust

---
 lang-rust.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-rust.c b/lang-rust.c
index e306b86..1787631 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -574,7 +574,7 @@ gen_data(const struct config *cfg, FILE *f)
 	    "%20s'\\r'   => escaped += \"\\\\r\",\n"
 	    "%20s'\\t'   => escaped += \"\\\\t\",\n"
 	    "%20s'\"'    => escaped += \"\\\\\\\"\",\n"
-	    "%20s'\\\\'   => escaped += \"\\\\\",\n"
+	    "%20s'\\\\'   => escaped += \"\\\\\\\\\",\n"
 	    "%20sc      => escaped.push(c),\n"
 	    "%16s}\n"
 	    "%12s}\n"
-- 
2.43.0


From 09c712a36b2699d1c813e386ea6d9639a1ff6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 19/40] fix: escape backslashes and control characters in JSON
 output

---
 lang-json.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 6df6ea2..665d31a 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -130,6 +130,10 @@ gen_string(FILE *f, const char *cp)
 		return 0;
 	for ( ; *cp != '\0'; cp++) {
 		switch (*cp) {
+		case '\\':
+			rc = fputs(cp[1] == '"' ? "\\" : "\\\\", 
+				f) != EOF;
+			break;
 		case '\b':
 			rc = fputs("\\b", f) != EOF;
 			break;
@@ -147,7 +151,8 @@ gen_string(FILE *f, const char *cp)
 			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", 
+					(unsigned int)*cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From 244ec6d84599f3060bc107aef232a9d3bb94d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 20/40] fix: do not reject decimals because of an earlier range
 error

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index f047129..be9c5cb 100644
--- a/parser.c
+++ b/parser.c
@@ -550,6 +550,7 @@ again:
 		if ( ! buf_push(p, '\0'))
 			return TOK_ERR;
 		if (hasdot) {
+			errno = 0;
 			p->last.decimal = strtod(p->buf, &epp);
 			if (epp == p->buf || ERANGE == errno)
 				return(parse_errx(p, 
-- 
2.43.0


From 79ad40f32881e1da0a31695d2041a6cf384b1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 21/40] fix: give queries with many joined structures
 well-formed table aliases

The middle letter of an alias beyond the 676th wasn't taken modulo the
alphabet, so aliases would contain braces and other characters.
---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From 960660868bc58392b1c53fdcb358828b0c9d0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 22/40] fix: compare each unique statement with all others

The search for duplicates stopped at the first other statement of the
same length, so that duplicates of later statements were accepted.
---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index fd7534b..958faaa 100644
--- a/linker.c
+++ b/linker.c
@@ -393,7 +393,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From 28e3bf786c8c9e953748ef22fa078b87d1e7b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 23/40] fix: apply all noexport roles, and only to the fields
 they are for

Roles following one that a field already had were skipped, and roles for
a field also applied to all others if following noexport for all fields.
---
 linker_resolve.c | 88 +++++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index a7b014c..f3d43b6 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -535,6 +535,32 @@ resolve_struct_rolemap_query(struct config *cfg, struct struct_rolemap *r)
 	return 0;
 }
 
+static int
+resolve_struct_rolemap_post_cover(struct config *cfg,
+	struct rolemap *dst, const struct rolemap *src)
+{
+	const struct rref	*srcr;
+	struct rref		*dstr;
+
+	TAILQ_FOREACH(srcr, &src->rq, entries) {
+		TAILQ_FOREACH(dstr, &dst->rq, entries)
+			if (dstr->role == srcr->role)
+				break;
+		if (dstr != NULL)
+			continue;
+		if ((dstr = calloc(1, sizeof(struct rref))) == NULL) {
+			gen_err(cfg, &srcr->pos);
+			return 0;
+		}
+		TAILQ_INSERT_TAIL(&dst->rq, dstr, entries);
+		dstr->role = srcr->role;
+		dstr->pos = srcr->pos;
+		dstr->parent = dst;
+	}
+
+	return 1;
+}
+
 /*
  * Apply the noexport roles of rolemap "r" to the field "f".
  * It is not an error for the field to already have the role specified
@@ -545,37 +571,25 @@ static int
 resolve_struct_rolemap_field(struct config *cfg,
 	struct struct_rolemap *r, struct field *f)
 {
-	struct rref	*rdst, *rsrc;
+	struct rolemap	*dst = f->rolemap, *src = r->result;
 
-	if (f->rolemap == NULL) {
-		f->rolemap = r->result;
+	if (dst == NULL || dst == src) {
+		f->rolemap = src;
 		return 1;
 	}
 
-	TAILQ_FOREACH(rsrc, &r->result->rq, entries) {
-		TAILQ_FOREACH(rdst, &f->rolemap->rq, entries)
-			if (rdst->role == rsrc->role)
-				break;
-
-		/* Already specified! */
-
-		if (rdst != NULL)
-			return 1;
-
-		/* Source doesn't exist in destination. */
+	/* 
+	 * The roles given for all fields are shared by these: don't add
+	 * to them what's only for the one field.
+	 */
 
-		rdst = calloc(1, sizeof(struct rref));
-		if (rdst == NULL) {
-			gen_err(cfg, &rsrc->pos);
-			return 0;
-		}
-		TAILQ_INSERT_TAIL(&f->rolemap->rq, rdst, entries);
-		rdst->parent = f->rolemap;
-		rdst->pos = rsrc->pos;
-		rdst->role = rsrc->role;
+	if (r->name != NULL && dst->f == NULL) {
+		f->rolemap = src;
+		src = dst;
+		dst = f->rolemap;
 	}
 
-	return 1;
+	return resolve_struct_rolemap_post_cover(cfg, dst, src);
 }
 
 /*
@@ -613,32 +627,6 @@ resolve_struct_rolemap_noexport(struct config *cfg,
 	return 0;
 }
 
-static int
-resolve_struct_rolemap_post_cover(struct config *cfg,
-	struct rolemap *dst, const struct rolemap *src)
-{
-	const struct rref	*srcr;
-	struct rref		*dstr;
-
-	TAILQ_FOREACH(srcr, &src->rq, entries) {
-		TAILQ_FOREACH(dstr, &dst->rq, entries)
-			if (dstr->role == srcr->role)
-				break;
-		if (dstr != NULL)
-			continue;
-		if ((dstr = calloc(1, sizeof(struct rref))) == NULL) {
-			gen_err(cfg, &srcr->pos);
-			return 0;
-		}
-		TAILQ_INSERT_TAIL(&dst->rq, dstr, entries);
-		dstr->role = srcr->role;
-		dstr->pos = srcr->pos;
-		dstr->parent = dst;
-	}
-
-	return 1;
-}
-
 /*
  * For "all" rolemaps, add the assigned roles to all possible operations
  * except for "noexport".
-- 
2.43.0


From 25e013fe4050ec1e78cd9b9d89dc5a059d5530fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 24/40] fix: order structures after all those they're part of

A structure embedded both directly and by way of another embedded
structure could end up after its user in the generated header.
---
 linker.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/linker.c b/linker.c
index 958faaa..0f77f23 100644
--- a/linker.c
+++ b/linker.c
@@ -93,11 +93,13 @@ annotate(struct ref *ref, size_t height, size_t colour)
 
 	p = ref->target->parent;
 
-	if (p->colour == colour)
+	/* Be deeper than all structures we're (in)directly part of. */
+
+	if (p->height >= height)
 		return;
 
 	p->colour = colour;
-	p->height += height;
+	p->height = height;
 
 	TAILQ_FOREACH(f, &p->fq, entries)
 		if (FTYPE_STRUCT == f->type)
-- 
2.43.0


From 4548ed4e7dc117dc38f691198aafa410d14c7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 25/40] fix: refuse bit operators on other fields in update
 constraints

As in queries, these only apply to bit, bits, and int fields.
---
 linker_resolve.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index f3d43b6..22117fc 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -305,6 +305,20 @@ resolve_up_const(struct config *cfg, struct struct_up_const *r)
 			"notnull or isnull operator "
 			"on field that's never null");
 
+	/* Logical AND/OR should only occur with bitfields. */
+
+	if (r->result->field != NULL &&
+	    (r->result->op == OPTYPE_AND ||
+	     r->result->op == OPTYPE_OR) &&
+	    r->result->field->type != FTYPE_BIT &&
+	    r->result->field->type != FTYPE_BITFIELD &&
+	    r->result->field->type != FTYPE_INT) {
+		gen_errx(cfg, &r->result->pos, "bit operations "
+			"only available on bit, bitfield, "
+			"and integer types");
+		errs++;
+	}
+
 	/* 
 	 * "like" operator needs text.
 	 * FIXME: useful for binary as well?
-- 
2.43.0


From 4a057130879e9ea95543c5663f1d4e2e8e08fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 26/40] fix: refuse updates or deletes sharing a name

The name must be unique, else the generated functions conflict.
---
 parser_struct.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..423f5ee 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -915,7 +915,8 @@ parse_struct_unique(struct parse *p, struct strct *s)
 static void
 parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 {
-	struct update	*up;
+	struct update	*up, *u;
+	struct updateq	*uq;
 	struct uref	*ur;
 	char		*cp;
 
@@ -1075,6 +1076,13 @@ terms:
 				parse_errx(p, "expected term name");
 				return;
 			}
+			uq = up->type == UP_MODIFY ? &s->uq : &s->dq;
+			TAILQ_FOREACH(u, uq, entries)
+				if (u != up && u->name != NULL && strcasecmp
+				    (u->name, p->last.string) == 0) {
+					parse_errx(p, "duplicate name");
+					return;
+				}
 			free(up->name);
 			up->name = strdup(p->last.string);
 			if (NULL == up->name) {
-- 
2.43.0


From a25c3e7fc351ba963b1e7c77ea4f3e29ab7b7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 27/40] fix: OFFSET without LIMIT is not valid SQL

---
 lang.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang.c b/lang.c
index 2bb2b9a..e2c40ec 100644
--- a/lang.c
+++ b/lang.c
@@ -817,6 +817,10 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		if (STYPE_SEARCH != s->type && s->limit > 0 &&
 		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
 			return 0;
+		if (STYPE_SEARCH != s->type && 
+		    s->limit == 0 && s->offset > 0 &&
+		    fputs(" LIMIT -1", f) == EOF)
+			return 0;
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
-- 
2.43.0


From ebaced9e4782dbe295f06656a3433286c58bfa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 28/40] fix: quotes of an empty string within a JavaScript
 string

---
 lang.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index e2c40ec..660afef 100644
--- a/lang.c
+++ b/lang.c
@@ -1010,8 +1010,10 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 				if ((ur->field->flags & FIELD_NULL)) {
 					if (fprintf(f, 
-					    "COALESCE(%s,'')",
-					    ur->field->name) < 0)
+					    "COALESCE(%s,%s)",
+					    ur->field->name,
+					    lang == LANG_JS ? 
+					    "\\'\\'" : "''") < 0)
 						return 0;
 				} else {
 					if (fprintf(f, "%s", 
-- 
2.43.0


From 4dee5b375de3a69230a4ab0cb2f4eeb817eb5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 29/40] fix: operations without roles were open to all roles in
 JavaScript and Rust

---
 lang-nodejs.c | 20 ++++++++++++++------
 lang-rust.c   | 21 +++++++++++++++------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index eaadacd..b4c8346 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -168,15 +168,23 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 
 /*
  * Recursively generate all roles allowed by this rolemap.
+ * If there are roles but none is given, nobody is allowed.
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
-	const struct rref	*rr;
+	const struct rref	*rr = NULL;
 
-	if (rm == NULL)
+	if (TAILQ_EMPTY(&cfg->rq))
 		return 0;
+	if (rm != NULL)
+		TAILQ_FOREACH(rr, &rm->rq, entries)
+			if (strcmp(rr->role->name, "all") != 0 ||
+			    !TAILQ_EMPTY(&rr->role->subrq))
+				break;
+	if (rr == NULL)
+		return fputs("\t\tprocess.abort();\n", f) == EOF ? -1 : 1;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
 		return -1;
@@ -461,7 +469,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, p->cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -730,7 +738,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1144,7 +1152,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, s->parent->cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
diff --git a/lang-rust.c b/lang-rust.c
index 1787631..80d8069 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -150,16 +150,25 @@ gen_role(FILE *f, const struct role *r, size_t tabs,
 
 /*
  * Recursively generate all roles allowed by this rolemap.
+ * If there are roles but none is given, nobody is allowed.
  * Return FALSE on failure, TRUE on success.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
-	const struct rref	*rr;
+	const struct rref	*rr = NULL;
 	int			 rc = 0;
 
-	if (rm == NULL || TAILQ_EMPTY(&rm->rq))
+	if (TAILQ_EMPTY(&cfg->rq))
 		return 1;
+	if (rm != NULL)
+		TAILQ_FOREACH(rr, &rm->rq, entries)
+			if (strcmp(rr->role->name, "all") != 0 ||
+			    !TAILQ_EMPTY(&rr->role->subrq))
+				break;
+	if (rr == NULL)
+		return fprintf(f, "%12spanic!(\"role violation\");\n", 
+			"") >= 0;
 	if (fprintf(f, "%12sif !(", "") < 0)
 		return 0;
 	TAILQ_FOREACH(rr, &rm->rq, entries) {
@@ -769,7 +778,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 	if (fprintf(f, ") -> Result<%s> {\n",
 	    up->type == UP_MODIFY ? "bool" : "()") < 0)
 		return 0;
-	if (!gen_rolemap(f, up->rolemap))
+	if (!gen_rolemap(f, up->parent->cfg, up->rolemap))
 		return 0;
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
 		return 0;
@@ -1102,7 +1111,7 @@ gen_insert(const struct strct *s, FILE *f)
 
 	if (fputs(") -> Result<i64> {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->ins->rolemap))
+	if (!gen_rolemap(f, s->cfg, s->ins->rolemap))
 		return 0;
 
 	if (fprintf(f,
@@ -1280,7 +1289,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 
 	if (fputs(" {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->rolemap))
+	if (!gen_rolemap(f, s->parent->cfg, s->rolemap))
 		return 0;
 
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
-- 
2.43.0


From 6992aa62557d805c9d80bccbc0a9b77be7c338b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 30/40] fix: roles may change to ancestors or none, not
 descendants, in JavaScript and Rust

---
 lang-nodejs.c | 15 +++++++++------
 lang-rust.c   | 16 ++++++++++------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index b4c8346..55d15c4 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1991,9 +1991,9 @@ gen_alias_builder(FILE *f, const struct strct *p)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role, which
+ * are into "none" and its ancestors, then all of the transitions from
+ * the roles "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2005,9 +2005,12 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
-		return 0;
-	if (fputs("\t\t\t\tthis.#role = newrole;\n"
+	for (rr = r->parent; rr != NULL; rr = rr->parent)
+		if (strcmp(rr->name, "all") != 0 &&
+		    fprintf(f, "\t\t\tcase '%s':\n", rr->name) < 0)
+			return 0;
+	if (fputs("\t\t\tcase 'none':\n"
+	    "\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
 	    "\t\t\tdefault:\n"
 	    "\t\t\t\tbreak;\n"
diff --git a/lang-rust.c b/lang-rust.c
index 80d8069..bf15f70 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1434,9 +1434,9 @@ gen_query(const struct search *s, size_t num, FILE *f)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role, which
+ * are into "none" and its ancestors, then all of the transitions from
+ * the roles "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -1446,12 +1446,16 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 
 	if (fprintf(f,
 	    "%16sOrtrole::%c%s => {\n"
-	    "%20sif ",
+	    "%20sif newrole == Ortrole::None",
 	    "", toupper((unsigned char)r->name[0]),
 	    r->name + 1, "") < 0)
 		return 0;
-	if (gen_role(f, r, 3, "newrole", 0, 0) < 0)
-		return 0;
+	for (rr = r->parent; rr != NULL; rr = rr->parent)
+		if (strcmp(rr->name, "all") != 0 && fprintf(f, 
+		    " || newrole == Ortrole::%c%s", 
+		    toupper((unsigned char)rr->name[0]), 
+		    rr->name + 1) < 0)
+			return 0;
 	if (fprintf(f, " {\n"
 	    "%24sself.role = newrole;\n"
 	    "%24sreturn;\n"
-- 
2.43.0


From 2a83767dcd57854b118133cab39741a6a4c66315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 31/40] fix: roles may change to none in C

---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index df5435e..b1d7dad 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1143,6 +1143,10 @@ gen_func_role_transitions(FILE *f, const struct config *cfg)
 	    "\t\treturn;\n"
 	    "\tif (ctx->role == ROLE_none)\n"
 	    "\t\tabort();\n"
+	    "\tif (r == ROLE_none) {\n"
+	    "\t\tctx->role = r;\n"
+	    "\t\treturn;\n"
+	    "\t}\n"
 	    "\n"
 	    "\tswitch (ctx->role) {\n"
 	    "\tcase ROLE_default:\n"
-- 
2.43.0


From 5e07d5fa8a83566edf03f75e081fbd8747cbda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 32/40] fix: Rust exports began with a comma if the first field
 is hidden from the role

---
 lang-rust.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index bf15f70..a44d6e0 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -235,6 +235,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		tabs += 4;
 	}
 
+	/* Whether we're first may depend on the role. */
+
+	if (first == 1 && fprintf(f, 
+	    "%*sif !ret.is_empty() {\n"
+	    "%*sret += \",\";\n"
+	    "%*s}\n",
+	    tabs, "", tabs + 4, "", tabs, "") < 0)
+		return -1;
 	if (fprintf(f, "%*sret += \"%s\\\"%s\\\":\";\n",
 	    tabs, "", first ? "" : ",", fd->name) < 0)
 		return -1;
@@ -447,12 +455,14 @@ gen_data_strct(const struct strct *s, FILE *f)
 	    "" : ", role: super::Ortrole", "") < 0)
 		goto out;
 
-	first = 1;
+	first = 2;
 	TAILQ_FOREACH(fd, &s->fq, entries)
 		if ((rc = gen_field_to_json(fd, first, f)) < 0)
 			goto out;
-		else if (rc > 0)
+		else if (rc > 0 && fd->rolemap == NULL)
 			first = 0;
+		else if (rc > 0 && first)
+			first = 1;
 
 	ret = fprintf(f, "%16sret\n%12s}\n%8s}\n", "", "", "") >= 0;
 out:
-- 
2.43.0


From 2cf04eb08a22287f4e8313476e7bcf5d27dd2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 33/40] fix: nested structures are exported in the role of
 their row in Rust

---
 lang-rust.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index a44d6e0..225462c 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -214,8 +214,11 @@ static int
 gen_field_to_json(const struct field *fd, int first, FILE *f)
 {
 	const struct rref	*r;
+	const char		*role;
 	int	 		 tabs = 16, rc = 0;
 
+	role = TAILQ_EMPTY(&fd->parent->cfg->arq) ? "" : "role";
+
 	if (fd->flags & FIELD_NOEXPORT)
 		return 0;
 	if (fd->type == FTYPE_PASSWORD)
@@ -305,14 +308,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (fprintf(f,
 			    "%*sif let Some(ref x) = &self.%s {\n"
 			    "%*sret += \"{\";\n"
-			    "%*sret += &x.to_json();\n"
+			    "%*sret += &x.to_json(%s);\n"
 			    "%*sret += \"}\";\n"
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
 			    tabs, "", fd->name, 
 			    tabs + 4, "", 
-			    tabs + 4, "", 
+			    tabs + 4, "", role,
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -321,10 +324,10 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		} else {
 			if (fprintf(f,
 			    "%*sret += \"{\";\n"
-			    "%*sret += &self.%s.to_json();\n"
+			    "%*sret += &self.%s.to_json(%s);\n"
 			    "%*sret += \"}\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, 
+			    tabs, "", fd->name, role,
 			    tabs, "") < 0)
 				return -1;
 		}
-- 
2.43.0


From 70b2143a3fedeb1dccf60adeea783530a916b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 34/40] fix: broken export of fields hidden from all if there
 are no such roles

---
 lang-nodejs.c | 30 +++++++++++++++++++++---------
 lang-rust.c   |  2 +-
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 55d15c4..52d4756 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -166,6 +166,21 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 	return 1;
 }
 
+/*
+ * Whether no role is in the map: "all" may be without any.
+ */
+static int
+rolemap_empty(const struct rolemap *rm)
+{
+	const struct rref	*rr;
+
+	TAILQ_FOREACH(rr, &rm->rq, entries)
+		if (strcmp(rr->role->name, "all") != 0 ||
+		    !TAILQ_EMPTY(&rr->role->subrq))
+			return 0;
+	return 1;
+}
+
 /*
  * Recursively generate all roles allowed by this rolemap.
  * If there are roles but none is given, nobody is allowed.
@@ -174,16 +189,11 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 static int
 gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
-	const struct rref	*rr = NULL;
+	const struct rref	*rr;
 
 	if (TAILQ_EMPTY(&cfg->rq))
 		return 0;
-	if (rm != NULL)
-		TAILQ_FOREACH(rr, &rm->rq, entries)
-			if (strcmp(rr->role->name, "all") != 0 ||
-			    !TAILQ_EMPTY(&rr->role->subrq))
-				break;
-	if (rr == NULL)
+	if (rm == NULL || rolemap_empty(rm))
 		return fputs("\t\tprocess.abort();\n", f) == EOF ? -1 : 1;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
@@ -1469,8 +1479,10 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 			if (!gen_comment(f, 3, COMMENT_JS, 
 			    "Don't export field to noted roles."))
 				return 0;
-			if (fputs("\t\t\tbreak;\n"
-			    "\t\tdefault:\n", f) == EOF)
+			if (!rolemap_empty(fd->rolemap) &&
+			    fputs("\t\t\tbreak;\n", f) == EOF)
+				return 0;
+			if (fputs("\t\tdefault:\n", f) == EOF)
 				return 0;
 		}
 		
diff --git a/lang-rust.c b/lang-rust.c
index 225462c..9bd1dbd 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -233,7 +233,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (rc < 0)
 				return -1;
 		}
-		if (fputs(") {\n", f) == EOF)
+		if (fprintf(f, "%s) {\n", rc == 0 ? "false" : "") < 0)
 			return -1;
 		tabs += 4;
 	}
-- 
2.43.0


From d440d0d857b61a09ec3cda7f562522cd327367d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 35/40] fix: bind iterator arguments by position when passwords
 are searched

The argument position and the parameter index were swapped, so with a
hashed password (which binds nothing) in the terms, the wrong arguments
were bound, and past the end of the parameters.
---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index b1d7dad..69b5eb9 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -527,8 +527,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From a95542c3d07399658a777d47f00a79cb99cc6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 36/40] fix: don't check passwords of a freed row in generated
 C searches

With several hashed passwords in the terms of a unique search, the second
check dereferenced the row that the first had freed.
---
 lang-c-source.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 69b5eb9..7bcedf8 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1395,11 +1395,13 @@ gen_search(FILE *f, const struct config *cfg,
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		/* A prior check might have freed the result. */
+
+		if (fputs("\t\tif (p != NULL && ", f) == EOF)
 			return 0;
 		if (!gen_checkpass(f, 1, pos, sent))
 			return 0;
-		if (fprintf(f, " {\n"
+		if (fprintf(f, ") {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
 		    "\t\t}\n",
-- 
2.43.0


From 0046f0199b9931535bfe1f204072297050cf8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 37/40] fix: bind enumerations as integers in Rust queries and
 updates

As in insertion, enumerations must be converted, and nullable ones
matched first: otherwise the generated code doesn't compile.
---
 lang-rust.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 9bd1dbd..abd8fec 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -717,6 +717,32 @@ gen_aliases(const struct config *cfg, FILE *f)
 	return fprintf(f, "%12s}\n%12ss\n%8s}\n", "", "", "") >= 0;
 }
 
+/*
+ * Generate the binding of an argument (not a hashed password) in a
+ * params![] list.  Enumerations are bound as integers.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_bind(FILE *f, size_t pos, const struct field *fd)
+{
+
+	if (fd->type != FTYPE_ENUM)
+		return fprintf(f, "%16sv%zu,\n", "", pos) >= 0;
+
+	if (fd->flags & FIELD_NULL)
+		return fprintf(f,
+		    "%16smatch v%zu {\n"
+		    "%20sSome(x) => Some"
+		     "(ToPrimitive::to_i64"
+		      "(&x).unwrap()),\n"
+		    "%20sNone => None,\n"
+		    "%16s},\n",
+		    "", pos, "", "", "") >= 0;
+
+	return fprintf(f, "%16sToPrimitive::to_i64"
+	    "(&v%zu).unwrap(),\n", "", pos) >= 0;
+}
+
 /*
  * Generate db_xxx_delete or db_xxx_update method.
  * Return zero on failure, non-zero on success.
@@ -843,7 +869,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 				return 0;
 			hash++;
 		} else {
-			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+			if (!gen_bind(f, pos, ref->field))
 				return 0;
 		}
 		pos++;
@@ -853,7 +879,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 		assert(ref->field->type != FTYPE_STRUCT);
 		if (OPTYPE_ISUNARY(ref->op))
 			continue;
-		if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+		if (!gen_bind(f, pos, ref->field))
 			return 0;
 		pos++;
 	}
@@ -1321,18 +1347,13 @@ gen_query(const struct search *s, size_t num, FILE *f)
 		if (OPTYPE_ISUNARY(sent->op))
 			continue;
 		switch (sent->field->type) {
-		case FTYPE_ENUM:
-			if (fprintf(f, "%16sToPrimitive::to_i64"
-			    "(&v%zu).unwrap(),\n", "", pos) < 0)
-				return 0;
-			break;
 		case FTYPE_PASSWORD:
 			if (sent->op != OPTYPE_STREQ &&
 			    sent->op != OPTYPE_STRNEQ)
 				break;
 			/* FALLTHROUGH */
 		default:
-			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+			if (!gen_bind(f, pos, sent->field))
 				return 0;
 		}
 		pos++;
-- 
2.43.0


From e94b7422f493fa01360c0360bac9a734e81003a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 38/40] fix: validate the limits of binary fields in C

Limits on the length of blobs are allowed and documented, but were ignored.
---
 lang-c-source.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 7bcedf8..61a70bf 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2054,9 +2054,9 @@ gen_valids_field(FILE *f,
 
 /*
  * Generate the validation function for the given field.
- * Exceptions: struct fields don't have validators, blob fields always
- * validate, and non-enumerations without limits use the native kcgi(3)
- * validator function.
+ * Exceptions: struct fields don't have validators, blob fields without
+ * limits always validate, and other non-enumerations without limits use
+ * the native kcgi(3) validator function.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2067,18 +2067,20 @@ gen_valids(FILE *f, const struct strct *p)
 	const struct eitem	*ei;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_STRUCT ||
-		    fd->type == FTYPE_BLOB)
+		if (fd->type == FTYPE_STRUCT)
 			continue;
 		if (fd->type != FTYPE_ENUM &&
 		    TAILQ_EMPTY(&fd->fvq))
 			continue;
 
-		assert(validtypes[fd->type] != NULL);
-
 		if (!gen_func_valid(f, fd, 0))
 			return 0;
-		if (fprintf(f, "{\n"
+		if (fputs("{\n", f) == EOF)
+			return 0;
+
+		/* There's no native validator for blobs. */
+
+		if (validtypes[fd->type] != NULL && fprintf(f,
 		    "\tif (!%s(p))\n"
 		    "\t\treturn 0;\n", validtypes[fd->type]) < 0)
 			return 0;
@@ -2770,12 +2772,12 @@ gen_valid(FILE *f, const struct strct *p)
 
 	/*
 	 * Don't generate an entry for structs.
-	 * Blobs always succeed (NULL validator).
+	 * Blobs without limits always succeed (NULL validator).
 	 * Non-enums without limits use the default function.
 	 */
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_BLOB) {
+		if (fd->type == FTYPE_BLOB && TAILQ_EMPTY(&fd->fvq)) {
 			if (fprintf(f, "\t{ NULL, \"%s-%s\" },\n",
 			    p->name, fd->name) < 0)
 				return 0;
-- 
2.43.0


From 7b8241fe2bc4244546e6e6d920d1fd1c487d24c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 39/40] fix: text limits are lengths in bytes in JavaScript as
 well

As documented in ort(5): the length of a string is in UTF-16 units.
---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 52d4756..5c4be78 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1640,7 +1640,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
-- 
2.43.0


From 120189524cef5b87478d3c59222a8b26bc120387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 40/40] fix: validate the limits of e-mail and binary fields in
 JavaScript

These are allowed and documented, but were ignored.
---
 lang-nodejs.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 5c4be78..5c86270 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1629,7 +1629,17 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (fputs
+		    ("\t\t\tconst nv: Buffer = "
+		     "Buffer.from(v);\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1653,8 +1663,16 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
 		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
-		     "em : null;\n", f) == EOF)
+		     "\t\t\tif (typeof(em) !== 'string')\n"
+		     "\t\t\t\treturn null;\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(Buffer.byteLength(em) %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn em;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_REAL:
-- 
2.43.0

