From fa3827d6612369598e883ac405a646aaaaf8cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 01/45] fix: apply modify delete changes to the result of
 earlier changes

Within one modify request a delete change computed the remaining values
from the original entry. Values added or replaced by an earlier change of
the same request were lost.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From 6d93dd020d34d4d27d08a1d6ce1f117ffff93d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 02/45] fix: keep all values of attributes listed repeatedly in
 add requests

When an add request lists the same attribute several times only the values
of the last one were stored. Names that differ only in case ended up as
separate attributes, which later modify requests could not handle.
---
 pkg/ldapentry/ldapentry.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index aa2de08..f22f77a 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -136,9 +136,19 @@ func entryApplyModDelete(curVals, delVals []string) (newVals []string) {
 
 func EntryFromAddRequest(add *ldap.AddRequest) *ldap.Entry {
 	attrs := map[string][]string{}
+	casefold := cases.Fold()
+	names := map[string]string{}
 
 	for _, a := range add.Attributes {
-		attrs[a.Type] = a.Vals
+		// The same attribute can be listed more than once, also in a different
+		// spelling. Merge the values of all of them.
+		nType := casefold.String(a.Type)
+		name, ok := names[nType]
+		if !ok {
+			name = a.Type
+			names[nType] = name
+		}
+		attrs[name] = entryApplyModAdd(attrs[name], a.Vals)
 	}
 	return ldap.NewEntry(add.DN, attrs)
 }
-- 
2.43.0


From 044129043cf5925933c7c000759beb4386e09e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:42 +0000
Subject: [PATCH 03/45] fix: decide search scope on parsed DNs

The single level scope split the DN at every comma, so an escaped comma in
an RDN made the whole search fail. The subtree scope was not checked at all
and let entries through whose DN merely ends with the text of the base DN.
---
 pkg/ldapserver/filter.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..b9b3e49 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -148,31 +148,25 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
-	parsedBaseDn, err := ldap.ParseDN(baseDN)
+	parsedBaseDn, err := parseFoldedDN(baseDN)
 	if err != nil {
 		return false, ldap.LDAPResultOperationsError
 	}
-	parsedDn, err := ldap.ParseDN(entry.DN)
+	parsedDn, err := parseFoldedDN(entry.DN)
 	if err != nil {
 		return false, ldap.LDAPResultOperationsError
 	}
 	switch scope {
 	case ldap.ScopeWholeSubtree: // The scope is constrained to the entry named by baseObject and to all its subordinates.
+		if !parsedDn.EqualFold(parsedBaseDn) && !parsedBaseDn.AncestorOfFold(parsedDn) {
+			return false, ldap.LDAPResultSuccess
+		}
 	case ldap.ScopeBaseObject: // The scope is constrained to the entry named by baseObject.
 		if !parsedDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
-			return false, ldap.LDAPResultSuccess
-		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
-		if !parsedSubDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) != len(parsedBaseDn.RDNs)+1 || !parsedBaseDn.AncestorOfFold(parsedDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	}
@@ -180,6 +174,21 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	return true, ldap.LDAPResultSuccess
 }
 
+// parseFoldedDN parses the provided DN and case-folds all its types and values.
+func parseFoldedDN(dn string) (*ldap.DN, error) {
+	parsed, err := ldap.ParseDN(dn)
+	if err != nil {
+		return nil, err
+	}
+	for _, rdn := range parsed.RDNs {
+		for _, ava := range rdn.Attributes {
+			ava.Type = casefold.String(ava.Type)
+			ava.Value = casefold.String(ava.Value)
+		}
+	}
+	return parsed, nil
+}
+
 func ServerFilterAttributes(attributes []string, entry *ldap.Entry) (LDAPResultCode, error) {
 	// attributes
 	if len(attributes) > 1 || (len(attributes) == 1 && len(attributes[0]) > 0) {
-- 
2.43.0


From 852c970275a383286005d1e90b3c9004fc4420e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:25 +0000
Subject: [PATCH 04/45] fix: refuse to rename the base entry

A leaf base entry could be renamed, after which the database had no base
entry any more and nothing could be added below the configured base DN.
---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..b843cb9 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -331,6 +331,11 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		flatNewDN := ldapdn.Normalize(&newDN)
 		flatOldDN := ldapdn.Normalize(olddn)
 
+		// all entries live below the base entry, it can't be renamed away
+		if flatOldDN == bdb.base {
+			return ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("Renaming the base entry is not allowed"))
+		}
+
 		// error out if there is an entry with the new name already
 		if id := bdb.getIDByDN(tx, flatNewDN); id != 0 {
 			return ErrEntryAlreadyExists
-- 
2.43.0


From 5616faf7062b4d91f51053b28780ffa718be904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:40 +0000
Subject: [PATCH 05/45] fix: allow renames which keep part of the old RDN

Renaming with deleteOldRDN set tried to delete every value of the old RDN,
also those which are part of the new RDN, so going from cn=a to cn=a+uid=b
was always refused as a modification of the RDN.
---
 pkg/ldbbolt/ldbbolt.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index b843cb9..9b3b428 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -32,6 +32,7 @@ import (
 	"github.com/go-ldap/ldap/v3"
 	"github.com/sirupsen/logrus"
 	bolt "go.etcd.io/bbolt"
+	"golang.org/x/text/cases"
 
 	"github.com/libregraph/idm/pkg/ldapdn"
 	"github.com/libregraph/idm/pkg/ldapentry"
@@ -362,6 +363,10 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		if req.DeleteOldRDN {
 			oldRDN := olddn.RDNs[0]
 			for _, ava := range oldRDN.Attributes {
+				// values which are part of the new RDN as well need to be kept
+				if rdnHasAttribute(newrdn.RDNs[0], ava) {
+					continue
+				}
 				modReq.Delete(ava.Type, []string{ava.Value})
 			}
 		}
@@ -386,6 +391,18 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 	return err
 }
 
+// rdnHasAttribute tells if the rdn contains the passed attribute type and value pair
+func rdnHasAttribute(rdn *ldap.RelativeDN, attr *ldap.AttributeTypeAndValue) bool {
+	casefold := cases.Fold()
+	for _, ava := range rdn.Attributes {
+		if casefold.String(ava.Type) == casefold.String(attr.Type) &&
+			casefold.String(ava.Value) == casefold.String(attr.Value) {
+			return true
+		}
+	}
+	return false
+}
+
 func (bdb *LdbBolt) UpdatePassword(req *ldap.PasswordModifyRequest) error {
 	ndn, err := ldapdn.ParseNormalize(req.UserIdentity)
 	if err != nil {
-- 
2.43.0


From 5b4eb11f60b76c714e724489680ed7aaff657c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:00 +0000
Subject: [PATCH 06/45] fix: refuse empty DNs and new RDNs which are not a
 single RDN

Add, delete and rename requests naming the empty DN, and renames to an
empty RDN, crashed the server. Renames to more than one RDN silently used
the first one only.
---
 pkg/ldbbolt/ldbbolt.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 9b3b428..ca936d9 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -50,6 +50,8 @@ var (
 	ErrEntryAlreadyExists = errors.New("entry already exists")
 	ErrEntryNotFound      = errors.New("entry does not exist")
 	ErrNonLeafEntry       = errors.New("entry is not a leaf entry")
+	ErrEmptyDN            = errors.New("the empty DN does not name an entry")
+	ErrInvalidNewRDN      = errors.New("the new RDN must consist of exactly one RDN")
 )
 
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
@@ -181,7 +183,13 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 		panic(err)
 	}
 
-	dn, _ := ldap.ParseDN(e.DN)
+	dn, err := ldap.ParseDN(e.DN)
+	if err != nil {
+		return err
+	}
+	if len(dn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 	parentDN := &ldap.DN{
 		RDNs: dn.RDNs[1:],
 	}
@@ -192,7 +200,7 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 	}
 
 	nParentDN := ldapdn.Normalize(parentDN)
-	err := bdb.db.Update(func(tx *bolt.Tx) error {
+	err = bdb.db.Update(func(tx *bolt.Tx) error {
 		id2entry := tx.Bucket([]byte("id2entry"))
 		id := bdb.getIDByDN(tx, nDN)
 		if id != 0 {
@@ -225,6 +233,9 @@ func (bdb *LdbBolt) EntryDelete(dn string) error {
 	if err != nil {
 		return err
 	}
+	if len(parsed.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 	pparentDN := &ldap.DN{
 		RDNs: parsed.RDNs[1:],
 	}
@@ -318,10 +329,17 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		return err
 	}
 
+	if len(olddn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
+
 	newrdn, err := ldap.ParseDN(req.NewRDN)
 	if err != nil {
 		return err
 	}
+	if len(newrdn.RDNs) != 1 {
+		return ErrInvalidNewRDN
+	}
 
 	var newDN ldap.DN
 
-- 
2.43.0


From 0da302eca8ec17060ea4cf957e9369792b9f8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:16 +0000
Subject: [PATCH 07/45] fix: match all components of substring filters

Only the first component was looked at, so (cn=a*z) returned everything
starting with a. A substring filter without components crashed the server.
---
 pkg/ldapserver/filter.go | 49 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index b9b3e49..0dea387 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -106,29 +106,15 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return true, ldap.LDAPResultSuccess
 		}
 	case "Substrings":
-		if len(f.Children) != 2 {
+		if len(f.Children) != 2 || len(f.Children[1].Children) == 0 {
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if matchSubstrings(casefold.String(v), f.Children[1].Children) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -146,6 +132,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// matchSubstrings tells if the (case-folded) value contains all the provided
+// substring filter components, in the order given and without overlap.
+func matchSubstrings(value string, substrings []*ber.Packet) bool {
+	for _, sub := range substrings {
+		s := casefold.String(string(sub.Data.Bytes()))
+		switch sub.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(value, s) {
+				return false
+			}
+			value = value[len(s):]
+		case FilterSubstringsAny:
+			i := strings.Index(value, s)
+			if i < 0 {
+				return false
+			}
+			value = value[i+len(s):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(value, s) {
+				return false
+			}
+			value = ""
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := parseFoldedDN(baseDN)
-- 
2.43.0


From 970c223040a722284e1dafab89af7b4586776095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:18 +0000
Subject: [PATCH 08/45] fix: return requested attributes only once

An attribute list naming an attribute more than once, or together with *,
returned that attribute several times.
---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..ab9224a 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -164,6 +164,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From f7ad6346a2410bd50cc82c5ab2d2ad80a988039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:20 +0000
Subject: [PATCH 09/45] fix: load LDIF files with long lines completely

A line of more than 64 KiB ended the reading of the file without an error
and everything from that line on was missing.
---
 server/handler/ldif/ldif.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..52f95eb 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -95,16 +95,22 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 // parseLDIFTemplate exectues the provided text template and then parses the
 // result as LDIF.
 func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{}) (io.Reader, error) {
-	scanner := bufio.NewScanner(r)
-	scanner.Split(bufio.ScanLines)
+	reader := bufio.NewReader(r)
 	var text []string
-	for scanner.Scan() {
-		t := scanner.Text()
+	for {
+		t, err := reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+		}
+		if t == "" && err == io.EOF {
+			break
+		}
+		t = strings.TrimSuffix(strings.TrimSuffix(t, "\n"), "\r")
 		if t != "" && t[0] == '#' {
 			// Ignore commented lines.
 			continue
 		}
-		text = append(text, scanner.Text())
+		text = append(text, t)
 	}
 
 	if m == nil {
-- 
2.43.0


From 12be0a720a690a9c2d28bc876b201622891a56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:00 +0000
Subject: [PATCH 10/45] fix: answer requests which abandon a paged search

A request with a cookie and a page size of zero waited forever on a nil
channel, so the client never got a response and the connection was lost.
---
 server/handler/ldif/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..25b808b 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -294,6 +294,9 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+					// There is nothing to return for an abandoned search.
+					pumpCh = make(chan *ldifEntry)
+					close(pumpCh)
 				}
 			}
 		} else {
-- 
2.43.0


From 0fd1073d614ed7f8d0f930752ff62909130966d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:02 +0000
Subject: [PATCH 11/45] fix: end paged searches properly when the last page is
 full

When the last entry filled up a page the client still got a cookie, but the
search behind it was already gone and asking for the next page failed.
---
 server/handler/ldif/handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 25b808b..12fd538 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -485,6 +485,11 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 			return false
 		})
 	}
+	if pagingControl != nil {
+		// Keep the cookie until the client got to know that there are no more
+		// entries, it might have received the last one as end of a full page.
+		pump(nil)
+	}
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From f093edd2136e576fbe5cffab8c5bb774c4e9e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:37 +0000
Subject: [PATCH 12/45] fix: report size limit overruns of LDIF searches

Searches which matched more entries than the size limit of the request were
cut off, but reported as successful and complete.
---
 pkg/ldapserver/search.go       |  6 ++++++
 server/handler/ldif/handler.go | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index ab9224a..bc01517 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -89,6 +89,12 @@ func HandleSearchRequest(req *ber.Packet, controls *[]ldap.Control, messageID in
 			return &searchResp.Controls, ldap.NewError(ldap.LDAPResultOperationsError, err)
 		}
 	}
+	if resultErr == nil && searchResp.ResultCode != ldap.LDAPResultSuccess {
+		resultErr = ldap.NewError(
+			uint16(searchResp.ResultCode),
+			errors.New(ldap.LDAPResultCodeMap[uint16(searchResp.ResultCode)]),
+		)
+	}
 	return &searchResp.Controls, resultErr
 }
 
diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 12fd538..ec584ab 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -362,6 +362,12 @@ results:
 					continue
 				}
 
+				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
+					// TODO(longsleep): handle total sizelimit for paging.
+					resultCode = ldap.LDAPResultSizeLimitExceeded
+					break results
+				}
+
 				// Make a copy, before filtering attributes.
 				e := &ldap.Entry{
 					DN:         entry.DN,
@@ -387,10 +393,6 @@ results:
 						break results
 					}
 				}
-				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
-					// TODO(longsleep): handle total sizelimit for paging.
-					break results
-				}
 			}
 		}
 	}
@@ -406,7 +408,7 @@ results:
 		Entries:    entries,
 		Referrals:  []string{},
 		Controls:   doneControls,
-		ResultCode: ldap.LDAPResultSuccess,
+		ResultCode: resultCode,
 	}, nil
 }
 
-- 
2.43.0


From dbd82ff165a50d19f2868b8479ac8faf71e6b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:39 +0000
Subject: [PATCH 13/45] fix: look up substrings in the LDIF index regardless of
 case

The substring index compared case-sensitive, while filters do not, so
(cn=J*) did not find what (!(!(cn=J*))) found.
---
 server/handler/ldif/index.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..73037a7 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -12,6 +12,7 @@ import (
 	"github.com/armon/go-radix"
 	"github.com/libregraph/idm/pkg/ldapserver"
 	"github.com/spacewander/go-suffix-tree"
+	"golang.org/x/text/cases"
 )
 
 var indexAttributes = map[string]string{
@@ -39,6 +40,12 @@ var indexAttributes = map[string]string{
 	"samAccountName": "eq",
 }
 
+// foldIndexValue case-folds index keys and the values looked up, as filters are
+// matched regardless of case as well.
+func foldIndexValue(value string) string {
+	return cases.Fold().String(value)
+}
+
 func AddIndexAttribute(name string, indices string) {
 	indexAttributes[name] = indices
 }
@@ -60,14 +67,14 @@ func newIndexMap() indexMap {
 
 func (im indexMap) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		value = strings.ToLower(value)
+		value = foldIndexValue(value)
 		im[value] = append(im[value], entry)
 	}
 	return true
 }
 
 func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
-	entries := im[strings.ToLower(value[0])]
+	entries := im[foldIndexValue(value[0])]
 	return entries, true
 }
 
@@ -83,7 +90,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(foldIndexValue(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +103,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(foldIndexValue(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +123,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := foldIndexValue(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +136,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := foldIndexValue(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From b2a285ce608488ddee4df3eee38ac153c0855f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:07 +0000
Subject: [PATCH 14/45] fix: find all entries of or filters in LDIF sources

The index lookup dropped objectClass and negated parts of or filters, so
entries matching only those were missing from the result.
---
 server/handler/ldif/filter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..2adf012 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -32,7 +32,8 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			// NOTE(longsleep): In case of more than one filter, we remove the
 			// index lookup for objectClass since pretty much everything has
 			// an object class anyways and our index lookup does not support
-			// "and" lookups. Thus this gains a lot of efficiency.
+			// "and" lookups. Thus this gains a lot of efficiency. It must be
+			// kept for objectClass below an "or" filter.
 			for _, f := range matches {
 				if !strings.EqualFold("objectClass", f[1]) {
 					withObjectClass = false
@@ -41,7 +42,7 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			}
 		}
 		for _, f := range matches {
-			if !withObjectClass && strings.EqualFold("objectClass", f[1]) {
+			if !withObjectClass && strings.EqualFold("objectClass", f[1]) && !strings.Contains(f[0], "|") {
 				continue
 			}
 			result = append(result, f[1:])
@@ -97,10 +98,15 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 
 	case ldapserver.FilterOr:
 		for idx, child := range f.Children {
+			known := len(parent)
 			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(parent) == known {
+				// The index can't provide the entries matching this child.
+				return nil, errors.New("unsupported child in or filter")
+			}
 		}
 
 	case ldapserver.FilterNot:
-- 
2.43.0


From 5d2d0c1365cf2c5a7115105fe0635d76d75576ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:09 +0000
Subject: [PATCH 15/45] fix: do not panic on malformed password hashes

Empty values, too short crypt and ssha hashes and argon2 hashes with invalid
parameters made the password validation panic. Report them as errors.
---
 pkg/ldappassword/ldappassword.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d4c801c..b56503e 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -22,6 +22,9 @@ var Argon2DefaultParams = argon2id.DefaultParams
 
 func Validate(password string, hash string) (bool, error) {
 	algorithm := ""
+	if hash == "" {
+		return false, fmt.Errorf("no password hash")
+	}
 	if hash[0] == '{' {
 		algorithmEnd := strings.Index(hash[0:], "}")
 		if algorithmEnd >= 1 {
@@ -41,6 +44,13 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		params, _, key, err := argon2id.DecodeHash(hash)
+		if err != nil {
+			return false, fmt.Errorf("argon2 error: %w", err)
+		}
+		if params.Iterations < 1 || params.Parallelism < 1 || len(key) == 0 {
+			return false, fmt.Errorf("argon2 error: %w", argon2id.ErrInvalidHash)
+		}
 		match, err := argon2id.ComparePasswordAndHash(password, hash)
 		if err != nil {
 			return false, fmt.Errorf("argon2 error: %w", err)
@@ -51,6 +61,9 @@ func Validate(password string, hash string) (bool, error) {
 		return true, nil
 
 	case "{CRYPT}":
+		if len(hash) < 2 {
+			return false, fmt.Errorf("crypt error: hash too short")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
@@ -74,6 +87,9 @@ func Validate(password string, hash string) (bool, error) {
 		if err != nil {
 			return false, fmt.Errorf("ssha error: %w", err)
 		}
+		if len(decodedBytes) < 4 {
+			return false, fmt.Errorf("ssha error: hash too short")
+		}
 		salt := decodedBytes[len(decodedBytes)-4:]
 		h := sha1.New() //nolint,gosec
 		h.Write([]byte(password))
-- 
2.43.0


From 8965436a7233491993e34fc29933fd7d25c48080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:19 +0000
Subject: [PATCH 16/45] fix: drop the authentication of a connection when a
 bind fails

RFC 4511 section 4.2.1 requires the connection to be anonymous after a failed
bind. It kept the identity of the previous successful bind.
---
 pkg/ldapserver/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..0c8508a 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -293,6 +293,7 @@ handler:
 
 		case ldap.ApplicationBindRequest:
 			server.Stats.countBinds(1)
+			boundDN = "" // Any earlier authentication ends here, even if this one fails.
 			ldapResultCode := HandleBindRequest(req, server.BindFns, conn)
 			if ldapResultCode == ldap.LDAPResultSuccess {
 				boundDN, ok = req.Children[1].Value.(string)
-- 
2.43.0


From 12ea560d21ca726b5301397f21813795e2a484d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:44 +0000
Subject: [PATCH 17/45] fix: require authentication for searches in the boltdb
 handler

Searches without bind were answered even with anonymous access disabled, and
with local anonymous access enabled clients from everywhere could use it.
---
 server/handler/boltdb/handler.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..4835f55 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -121,8 +121,8 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 
 	// Handle anoymous bind
 	if bindDN == "" {
-		if !h.allowLocalAnonymousBind {
-			logger.Debugln("ldap anonymous Bind disabled")
+		if !h.anonymousAllowed(conn) {
+			logger.Debugln("ldap anonymous Bind not allowed")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
 			return ldap.LDAPResultSuccess, nil
@@ -294,6 +294,12 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" && !h.anonymousAllowed(conn) {
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultInsufficientAccessRights,
+		}, errors.New("anonymous search not allowed")
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
@@ -325,6 +331,15 @@ func (h *boltdbHandler) Reload(ctx context.Context) error {
 	return nil
 }
 
+// anonymousAllowed tells if the client may use the server without authentication.
+func (h *boltdbHandler) anonymousAllowed(conn net.Conn) bool {
+	if !h.allowLocalAnonymousBind {
+		return false
+	}
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	return net.ParseIP(host).IsLoopback()
+}
+
 func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	if h.adminDN != "" && h.adminDN == boundDN {
 		return true
-- 
2.43.0


From 6de5a9b64a2ca9a86bac07c997aa40e06b1d559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:53 +0000
Subject: [PATCH 18/45] fix: answer refused password modify requests without
 error details

Handlers return no error along with a result code like insufficient access
rights. Any user could crash the server by changing the password of others.
---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From ed8e19cdfa20484b84f3bf927ec68237500739cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:58 +0000
Subject: [PATCH 19/45] fix: return the generated password of password modify
 requests

The response contained the hash of the generated password, so that nobody
knew the password which was set.
---
 pkg/ldapserver/pwmodifyexop.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..da052c1 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -24,7 +24,7 @@ func init() {
 }
 
 func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, conn net.Conn) (*ber.Packet, error) {
-	var passwordGenerated bool
+	var generatedPassword string
 	logger.V(1).Info("HandlePasswordModifyExOp")
 	if boundDN == "" {
 		return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("authentication required"))
@@ -47,7 +47,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 			logger.Error(err, "Failed to generate new password")
 			return nil, ldap.NewError(ldap.LDAPResultOperationsError, errors.New("Failed to generate new Password"))
 		}
-		passwordGenerated = true
+		generatedPassword = pwReq.NewPassword
 	}
 	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
 	if err != nil {
@@ -75,9 +75,9 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 		return nil, ldap.NewError(uint16(code), err)
 	}
 	var response *ber.Packet
-	if passwordGenerated {
+	if generatedPassword != "" {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, generatedPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From 3d2cbe529f3c5b96d228694fcd931782d1766717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 20/45] fix: keep connections open after failed searches

A search which failed, for example because it exceeded its size limit,
ended the connection after its result had been sent. Requests the client
had already sent on the same connection were lost.
---
 pkg/ldapserver/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0c8508a..f19bee0 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -417,7 +417,6 @@ handler:
 					logger.Error(err, "sendPacket error")
 					break handler
 				}
-				break handler
 			} else {
 				if err = sendPacket(conn, encodeSearchDone(messageID, ldap.LDAPResultSuccess, doneControls)); err != nil {
 					logger.Error(err, "sendPacket error")
-- 
2.43.0


From ef47c85252e3cacd6b6d8a02b70022302031cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 21/45] fix: answer compare requests with a compare response

The answer carried the tag of a compare request, which clients do not
accept, and the connection was closed.
---
 pkg/ldapserver/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index f19bee0..c4b8ea6 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -314,12 +314,12 @@ handler:
 			}
 
 		case ldap.ApplicationCompareRequest:
-			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareRequest, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareResponse, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			logger.V(1).Info("Unhandled operation", "type", ldap.ApplicationMap[uint8(req.Tag)], "tag", req.Tag)
 			if err = sendPacket(conn, responsePacket); err != nil {
 				logger.Error(err, "sendPacket error")
+				break handler
 			}
-			logger.V(1).Info("Unhandled operation", "type", ldap.ApplicationMap[uint8(req.Tag)], "tag", req.Tag)
-			break handler
 
 		case ldap.ApplicationDelRequest:
 			server.Stats.countDeletes(1)
-- 
2.43.0


From f72218087ce53e15a48b2bf8e50123f42233d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 22/45] fix: do not close connections on abandon requests

A client which abandons an operation keeps using its connection, but the
server treated the request as unknown and disconnected the client.
---
 pkg/ldapserver/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index c4b8ea6..e9cdf60 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -267,6 +267,11 @@ handler:
 			logger.V(1).Info("Unhandled operation", "type", op, "tag", req.Tag)
 			break handler
 
+		case ldap.ApplicationAbandonRequest:
+			// Requests are handled one after the other, so the operation to be
+			// abandoned is already done. There is no response to this request.
+			logger.V(1).Info("Ignored abandon request")
+
 		case ldap.ApplicationAddRequest:
 			server.Stats.countAdds(1)
 
-- 
2.43.0


From e10321bb826d39f494ad39592a4e9d1ad1cec786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 23/45] fix: release the statistics lock after counting add
 requests

With statistics enabled, the first add request locked up its connection
and afterwards the whole server.
---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From 5eba9c9c693793663f3280ca0b2c233cf2ed505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 24/45] fix: report the maximum number of connections in the
 statistics

The copy of the statistics left the value out, so it was always zero.
---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From a1aded512728f37373611d9407f6994c5722849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 25/45] fix: survive panics while handling a connection

Malformed requests and controls made the decoding code panic, which ended
the whole process without any authentication being necessary. Log the
panic and close the connection it happened on instead.
---
 pkg/ldapserver/server.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index e9cdf60..ab5846a 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,9 +8,11 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
+	"runtime/debug"
 	"strings"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
@@ -213,6 +215,19 @@ listener:
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
 
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Error(fmt.Errorf("panic: %v", r), "handleConnection panic", "stack", string(debug.Stack()))
+		}
+
+		for _, c := range server.CloseFns {
+			c.Close(boundDN, conn)
+		}
+
+		conn.Close()
+		server.Stats.countConnsClose(1)
+	}()
+
 handler:
 	for {
 		// Read incoming LDAP packet.
@@ -434,13 +449,6 @@ handler:
 
 		}
 	}
-
-	for _, c := range server.CloseFns {
-		c.Close(boundDN, conn)
-	}
-
-	conn.Close()
-	server.Stats.countConnsClose(1)
 }
 
 func sendPacket(conn net.Conn, packet *ber.Packet) error {
-- 
2.43.0


From 5307e7b7ec7741a0d212d309dc07efc2848bec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:25 +0000
Subject: [PATCH 26/45] fix: keep accepting connections after temporary errors

Running out of file descriptors for a moment, or a client aborting its
connection at the wrong time, made the server stop accepting connections
for good. Try again after a short delay, like net/http does.
---
 pkg/ldapserver/server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index ab5846a..b432b96 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -14,6 +14,7 @@ import (
 	"net"
 	"runtime/debug"
 	"strings"
+	"time"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -185,14 +186,26 @@ func (server *Server) ListenAndServe(listenString string) error {
 func (server *Server) Serve(ln net.Listener) error {
 	newConn := make(chan net.Conn)
 	go func() {
+		var delay time.Duration
 		for {
 			conn, err := ln.Accept()
 			if err != nil {
 				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
 					logger.Error(err, "Error accepting network connection")
 				}
+				//nolint:staticcheck // There is no replacement to detect passing accept errors.
+				if ne, ok := err.(net.Error); ok && ne.Temporary() {
+					if delay *= 2; delay == 0 {
+						delay = 5 * time.Millisecond
+					} else if delay > time.Second {
+						delay = time.Second
+					}
+					time.Sleep(delay)
+					continue
+				}
 				break
 			}
+			delay = 0
 			logger.V(1).Info("New Connection", "addr", ln.Addr())
 			newConn <- conn
 		}
-- 
2.43.0


From e294e8550fac8651028b0b511105f4d97975aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:28 +0000
Subject: [PATCH 27/45] fix: parse every LDIF file of a folder on its own

The files of a folder were joined and parsed as one text. A version line
is only allowed at the start of a file, so a folder in which a second file
has one was refused.
---
 server/handler/ldif/ldif.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 52f95eb..a223d72 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -54,7 +54,7 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 		return matches[i] < matches[j]
 	})
 
-	var buf bytes.Buffer
+	l := &ldif.LDIF{}
 	var matchErrors []error
 	for _, match := range matches {
 		err = func() error {
@@ -64,23 +64,23 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 				return nil
 			}
 			defer f.Close()
-			if options.TemplateEngineDisabled {
-				_, copyErr := io.Copy(&buf, f)
-				if copyErr != nil {
-					return fmt.Errorf("file read error: %w", copyErr)
-				}
-			} else {
+			var r io.Reader = f
+			if !options.TemplateEngineDisabled {
 				p, parseErr := parseLDIFTemplate(f, options, nil)
 				if parseErr != nil {
 					matchErrors = append(matchErrors, fmt.Errorf("parse error in %s: %w", match, parseErr))
 					return nil
 				}
-				_, copyErr := io.Copy(&buf, p)
-				if copyErr != nil {
-					return fmt.Errorf("template read error: %w", copyErr)
-				}
+				r = p
+			}
+			part, parseErr := parseLDIF(r, options)
+			if parseErr != nil {
+				return fmt.Errorf("parse error in %s: %w", match, parseErr)
+			}
+			if l.Version == 0 {
+				l.Version = part.Version
 			}
-			buf.WriteString("\n\n")
+			l.Entries = append(l.Entries, part.Entries...)
 			return nil
 		}()
 		if err != nil {
@@ -88,8 +88,7 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 		}
 	}
 
-	l, err := parseLDIF(&buf, options)
-	return l, matchErrors, err
+	return l, matchErrors, nil
 }
 
 // parseLDIFTemplate exectues the provided text template and then parses the
-- 
2.43.0


From 24781b7f3d53dd5a52efe6910cfe22172f130614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:28 +0000
Subject: [PATCH 28/45] fix: load LDIF files from folders with pattern
 characters in their name

The folder name was used as part of a file pattern. A folder whose name
has characters like [ or * in it was loaded as if it was empty.
---
 server/handler/ldif/ldif.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index a223d72..e2e908a 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -46,13 +46,17 @@ func parseLDIFFile(fn string, options *Options) (*ldif.LDIF, error) {
 // parseLDIFDirectory opens all ldif files in the given path in sorted order,
 // cats them all together and parses the result as LDIF.
 func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error) {
-	matches, err := filepath.Glob(filepath.Join(pn, "*.ldif"))
+	files, err := os.ReadDir(pn)
 	if err != nil {
 		return nil, nil, err
 	}
-	sort.Slice(matches, func(i, j int) bool {
-		return matches[i] < matches[j]
-	})
+	var matches []string
+	for _, file := range files {
+		if strings.HasSuffix(file.Name(), ".ldif") {
+			matches = append(matches, filepath.Join(pn, file.Name()))
+		}
+	}
+	sort.Strings(matches)
 
 	l := &ldif.LDIF{}
 	var matchErrors []error
-- 
2.43.0


From a39fb3fd27a113638ede416c17e64084414ec875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:28 +0000
Subject: [PATCH 29/45] fix: ignore folded comments in LDIF templates

Only the first line of a folded comment was dropped. Its continuation
lines became part of the value before the comment.
---
 server/handler/ldif/ldif.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index e2e908a..bc725e6 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -100,6 +100,7 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{}) (io.Reader, error) {
 	reader := bufio.NewReader(r)
 	var text []string
+	var isComment bool
 	for {
 		t, err := reader.ReadString('\n')
 		if err != nil && err != io.EOF {
@@ -109,7 +110,8 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 			break
 		}
 		t = strings.TrimSuffix(strings.TrimSuffix(t, "\n"), "\r")
-		if t != "" && t[0] == '#' {
+		isComment = t != "" && (t[0] == '#' || (isComment && t[0] == ' '))
+		if isComment {
 			// Ignore commented lines.
 			continue
 		}
-- 
2.43.0


From 0f8cf504d606b2d4b4f030b913595d027888ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:28 +0000
Subject: [PATCH 30/45] fix: refuse LDIF sources with change records

Change records were skipped. The LDIF parser also takes all records after
the first change record as changes, so that they were missing from the
directory without any error.
---
 server/handler/ldif/ldif.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index bc725e6..e7c8867 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -157,10 +157,13 @@ func treeFromLDIF(l *ldif.LDIF, index Index, options *Options) (*suffix.Tree, er
 	// NOTE(longsleep): Create in memory tree records from LDIF data.
 	var entry *ldap.Entry
 	for _, entryRecord := range l.Entries {
-		if entryRecord == nil || entryRecord.Entry == nil {
+		if entryRecord == nil {
 			// NOTE(longsleep): We don't use l.AllEntries as "nil" records can happen.
 			continue
 		}
+		if entryRecord.Entry == nil {
+			return nil, fmt.Errorf("change records are not supported")
+		}
 		entry = entryRecord.Entry
 		e := &ldifEntry{
 			Entry: &ldap.Entry{
-- 
2.43.0


From 6ece2e29ceff9f1a607b7cc62bdac048a9e1f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:28 +0000
Subject: [PATCH 31/45] fix: embed files completely with formatAsFileBase64

The encoder was not closed, so the last one or two bytes of a file were
missing unless its size was a multiple of three.
---
 server/handler/ldif/template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..a85538e 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -109,6 +109,9 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 			if err != nil {
 				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
 			}
+			if err = encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
 			if n > formatAsFileSizeLimit {
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
-- 
2.43.0


From 8e08b464aa0ace930f1b30307a082822a43959ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:54 +0000
Subject: [PATCH 32/45] fix: keep the LDIF config when the rest of a reload
 fails

The config was replaced before the main LDIF source was loaded. When that
failed, logins of the new config were used together with the old content.
---
 server/handler/ldif/middleware.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f314444..051548a 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -57,35 +57,35 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 		baseDN: strings.ToLower(options.BaseDN),
 	}
 
-	err = h.open()
+	value, err := h.open()
 	if err != nil {
 		return nil, err
 	}
+	h.current.Store(value)
 
 	return h, nil
 }
 
-func (h *ldifMiddleware) open() error {
+func (h *ldifMiddleware) open() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	h.logger.Debugln("loading LDIF")
 	l, err := parseLDIFFile(h.fn, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	t, err := treeFromLDIF(l, nil, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	// Store parsed data as memory value.
+	// Keep parsed data as memory value.
 	value := &ldifMemoryValue{
 		t: t,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -94,7 +94,7 @@ func (h *ldifMiddleware) open() error {
 		"base_dn":       h.options.BaseDN,
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifMiddleware) load() *ldifMemoryValue {
@@ -120,12 +120,18 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
-	err := h.open()
+	value, err := h.open()
 	if err != nil {
 		return err
 	}
 
-	return h.next.Reload(ctx)
+	err = h.next.Reload(ctx)
+	if err != nil {
+		return err
+	}
+	h.current.Store(value)
+
+	return nil
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
-- 
2.43.0


From ecf20bad515811e95faacc0720c31450e9225732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:34 +0000
Subject: [PATCH 33/45] fix: export LDIF that can be loaded again

Values with a leading space were written without base64, so that the space
was lost on load. Names were never written as base64, so that a name with
a line break in it ended up as broken LDIF.
---
 cmd/idmd/boltdb/export/export.go | 49 +++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..4270912 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -6,17 +6,20 @@
 package export
 
 import (
-	"fmt"
+	"bufio"
+	"encoding/base64"
 	"os"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
-	"github.com/go-ldap/ldif"
 	"github.com/sirupsen/logrus"
 	bolt "go.etcd.io/bbolt"
 
 	"github.com/libregraph/idm/pkg/ldbbolt"
 )
 
+const foldWidth = 76
+
 type LDIFExporter struct {
 	logger logrus.FieldLogger
 	dbFile string
@@ -59,18 +62,44 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
-	ld, err := ldif.ToLDIF(entries)
-	if err != nil {
+	out := bufio.NewWriter(os.Stdout)
+	for _, entry := range entries {
+		writeLine(out, "dn", entry.DN)
+		for _, attr := range entry.Attributes {
+			for _, value := range attr.Values {
+				writeLine(out, attr.Name, value)
+			}
+		}
+		out.WriteString("\n")
+	}
+	if err := out.Flush(); err != nil {
 		l.logger.Error(err)
 		return err
 	}
+	return nil
+}
 
-	output, err := ldif.Marshal(ld)
-	if err != nil {
-		l.logger.Error(err)
-		return err
+// writeLine writes an attribute value as LDIF, folded and base64 encoded if
+// needed.
+func writeLine(out *bufio.Writer, name, value string) {
+	line := name + ": " + value
+	if !isSafeString(value) {
+		line = name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+	}
+	for len(line) > foldWidth {
+		out.WriteString(line[:foldWidth] + "\n")
+		line = " " + line[foldWidth:]
 	}
+	out.WriteString(line + "\n")
+}
 
-	fmt.Print(output)
-	return nil
+// isSafeString returns true if the value can be used in LDIF without encoding,
+// see SAFE-STRING in RFC 2849.
+func isSafeString(value string) bool {
+	for i := 0; i < len(value); i++ {
+		if value[i] < ' ' || value[i] > '~' {
+			return false
+		}
+	}
+	return value == "" || (!strings.ContainsAny(value[:1], " :<") && value[len(value)-1] != ' ')
 }
-- 
2.43.0


From 93bb4c7ff5197b06e8fdea1d34ad580f10217640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:34 +0000
Subject: [PATCH 34/45] fix: load LDIF with a blank line after its version

The LDIF parser returns an empty record for a version line with a blank
line after it. Loading such a file ended in a panic.
---
 cmd/idmd/boltdb/load/load.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/load/load.go b/cmd/idmd/boltdb/load/load.go
index 4bbc4a8..ff9052e 100644
--- a/cmd/idmd/boltdb/load/load.go
+++ b/cmd/idmd/boltdb/load/load.go
@@ -62,7 +62,11 @@ func (l *LDIFLoader) Load(ldifFile string) error {
 		return err
 	}
 
-	for _, entry := range lf.AllEntries() {
+	for _, record := range lf.Entries {
+		if record == nil || record.Entry == nil {
+			continue
+		}
+		entry := record.Entry
 		l.logger.Debugf("Adding '%s'", entry.DN)
 		if err := bdb.EntryPut(entry); err != nil {
 			return fmt.Errorf("error adding Entry '%s': %w", entry.DN, err)
-- 
2.43.0


From f436b25fe49948fe8760ab6828b7eaa774504902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:34 +0000
Subject: [PATCH 35/45] fix: refuse to load LDIF with change records

Change records were skipped, and the LDIF parser takes all records after
the first change record as changes. They were missing from the database
although the load was successful.
---
 cmd/idmd/boltdb/load/load.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/load/load.go b/cmd/idmd/boltdb/load/load.go
index ff9052e..5ef2e90 100644
--- a/cmd/idmd/boltdb/load/load.go
+++ b/cmd/idmd/boltdb/load/load.go
@@ -63,7 +63,13 @@ func (l *LDIFLoader) Load(ldifFile string) error {
 	}
 
 	for _, record := range lf.Entries {
-		if record == nil || record.Entry == nil {
+		if record != nil && record.Entry == nil {
+			return fmt.Errorf("error in file '%s': change records are not supported", ldifFile)
+		}
+	}
+
+	for _, record := range lf.Entries {
+		if record == nil {
 			continue
 		}
 		entry := record.Entry
-- 
2.43.0


From 0ba06342b2de8bc08447df70c1eedd86401c9d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:38 +0000
Subject: [PATCH 36/45] fix: do not write to shared memory while walking LDIF
 entries

The suffix tree writes to the memory of its keys while it is walked.
Searches without a matching index raced with other searches and binds.
Walk the tree once when it is loaded and search in the result.
---
 server/handler/ldif/handler.go | 20 +++++++++++++++-----
 server/handler/ldif/memory.go  |  2 ++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index ec584ab..83386af 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -127,11 +127,20 @@ func (h *ldifHandler) open() error {
 		return err
 	}
 
+	// The tree must not be walked concurrently.
+	var entries []*ldifEntry
+	t.Walk(func(_ []byte, entryRecord interface{}) bool {
+		entries = append(entries, entryRecord.(*ldifEntry))
+		return false
+	})
+
 	// Store parsed data as memory value.
 	value := &ldifMemoryValue{
 		l: l,
 		t: t,
 
+		entries: entries,
+
 		index: index,
 	}
 	h.current.Store(value)
@@ -480,12 +489,13 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 	if load {
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
-		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
-			if ok := pump(entryRecord.(*ldifEntry)); !ok {
-				return true
+		for _, entryRecord := range current.entries {
+			if strings.HasSuffix(entryRecord.DN, searchBaseDN) {
+				if ok := pump(entryRecord); !ok {
+					return
+				}
 			}
-			return false
-		})
+		}
 	}
 	if pagingControl != nil {
 		// Keep the cookie until the client got to know that there are no more
diff --git a/server/handler/ldif/memory.go b/server/handler/ldif/memory.go
index 749be76..d618022 100644
--- a/server/handler/ldif/memory.go
+++ b/server/handler/ldif/memory.go
@@ -14,5 +14,7 @@ type ldifMemoryValue struct {
 	l *ldif.LDIF
 	t *suffix.Tree
 
+	entries []*ldifEntry
+
 	index Index
 }
-- 
2.43.0


From 420779453e99f3d9471f53b27bdeaf6afdb8fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:27 +0000
Subject: [PATCH 37/45] fix: Do not crash on newusers lines with too few fields

A line with five or six fields passed the length check but all seven
fields are used.
---
 cmd/idmd/gen/newusers/newusers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..08c3d8d 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -154,7 +154,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
 		e := &entry{
-- 
2.43.0


From 880acdb002ddb0502319fe099aa735c102b6c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:27 +0000
Subject: [PATCH 38/45] fix: Keep user and group numbers of zero in newusers

A given uid of 0 was replaced by an unrelated number and a given gid
of 0 was left out.
---
 cmd/idmd/gen/newusers/newusers.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 08c3d8d..1c8609b 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -38,10 +38,8 @@ objectClass: posixAccount
 objectClass: top
 objectClass: inetOrgPerson
 uid: <<.entry.Name>>
-uidNumber: <<with .detail.uidNumber>><<.>><<else>><<AutoIncrement>><<end>>
-<<- with .detail.gidNumber>>
-gidNumber: <<.>>
-<<- end>>
+uidNumber: <<.detail.uidNumber>>
+gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
 userPassword: <<.>>
 <<- end>>
-- 
2.43.0


From 2d3f0f0c18e08a144eddbe74dd36da183a910f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:27 +0000
Subject: [PATCH 39/45] fix: Report read errors in newusers

Reading stopped silently at a read error or at an overlong line, so all
following users were dropped while the command reported success.
---
 cmd/idmd/gen/newusers/newusers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 1c8609b..a8a9784 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -177,6 +177,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read after line %d: %w", count, err)
+	}
 
 	return results, nil
 }
-- 
2.43.0


From 39a20ab825af9b422156ba1be7e8e1508aaf85a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:27 +0000
Subject: [PATCH 40/45] fix: Print generated password values literally

The value was used as a format string, which changed secrets with a
percent sign when the clear text scheme is used.
---
 cmd/idmd/gen/passwd/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 1499a63..6a93cfc 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -141,7 +141,7 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprintf(os.Stdout, hash)
+	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
 		fmt.Fprintf(os.Stdout, "\n")
 	}
-- 
2.43.0


From d18978f13ecfe6df7b203291a10d0aa4917a16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:27 +0000
Subject: [PATCH 41/45] fix: Encode values in newusers which LDIF templates
 would change

The output is an LDIF template. Names and passwords with template
actions or with surrounding white space were changed or broke the file.
---
 cmd/idmd/gen/newusers/newusers.go    |  8 ++++----
 cmd/idmd/gen/newusers/output_ldif.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index a8a9784..df7b180 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -41,18 +41,18 @@ uid: <<.entry.Name>>
 uidNumber: <<.detail.uidNumber>>
 gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
-userPassword: <<.>>
+<<formatAsAttribute "userPassword" .>>
 <<- end>>
 mail: <<.entry.Name>>@{{.MailDomain}}
 <<- range .detail.mail>>
 mailAlternateAddress: <<.>>
 <<- end>>
-cn: <<.detail.cn>>
+<<formatAsAttribute "cn" .detail.cn>>
 <<- with .detail.givenName>>
-givenName: <<.>>
+<<formatAsAttribute "givenName" .>>
 <<- end>>
 <<- with .detail.sn>>
-sn: <<.>>
+<<formatAsAttribute "sn" .>>
 <<- end>>
 `
 
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index ab862ea..427f068 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -6,6 +6,7 @@
 package newusers
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"os"
@@ -17,6 +18,15 @@ import (
 	"github.com/libregraph/idm/server/handler/ldif"
 )
 
+// formatAsAttribute returns the LDIF line for the provided attribute, using
+// base64 if the value would not survive as plain text in a LDIF template.
+func formatAsAttribute(name, value string) string {
+	if value != strings.TrimSpace(value) || strings.HasPrefix(value, ":") || strings.HasPrefix(value, "<") || strings.Contains(value, "{{") {
+		return name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+	}
+	return name + ": " + value
+}
+
 func outputLDIF(r io.Reader) error {
 	entries, err := parsePasswdFile(r)
 	if err != nil {
@@ -60,7 +70,7 @@ func outputLDIF(r io.Reader) error {
 	}
 
 	m := map[string]interface{}{}
-	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Parse(DefaultLDIFUserTemplate)
+	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Funcs(template.FuncMap{"formatAsAttribute": formatAsAttribute}).Parse(DefaultLDIFUserTemplate)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From e3a5a5031402e776c103294ecb0ad9787eb300f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:26 +0000
Subject: [PATCH 42/45] fix: Route requests on whole RDNs

The handler of a suffix also got requests for DNs which merely end with
the same characters, such as "ao=x" for the suffix "o=x".
---
 pkg/ldapserver/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index b432b96..653f6ed 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -476,7 +476,7 @@ func sendPacket(conn net.Conn, packet *ber.Packet) error {
 func routeFunc(dn string, funcNames []string) string {
 	bestPick := ""
 	for _, fn := range funcNames {
-		if strings.HasSuffix(dn, fn) {
+		if fn == "" || dn == fn || strings.HasSuffix(dn, ","+fn) {
 			l := len(strings.Split(bestPick, ","))
 			if bestPick == "" {
 				l = 0
-- 
2.43.0


From b1da80f4d9aeee63d32ec891fec6bc849827b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:09 +0000
Subject: [PATCH 43/45] fix: refuse to start if the metrics or profiling
 listener cannot be opened

The server logged the failure and went on without the endpoint it was asked for.
---
 cmd/idmd/serve/serve.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmd/idmd/serve/serve.go b/cmd/idmd/serve/serve.go
index 3288642..9e7dc6a 100644
--- a/cmd/idmd/serve/serve.go
+++ b/cmd/idmd/serve/serve.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"net/http"
 	_ "net/http/pprof" // Include pprof for debugging, its only enabled when --with-pprof is given.
 	"os"
@@ -270,12 +271,16 @@ func (bs *bootstrap) configure(ctx context.Context, cmd *cobra.Command, args []s
 			prometheus.NewProcessCollector(prometheus.ProcessCollectorOpts{}),
 			prometheus.NewGoCollector(),
 		)
+		listener, listenErr := net.Listen("tcp", DefaultMetricsListenAddr)
+		if listenErr != nil {
+			return fmt.Errorf("unable to start metrics listener: %w", listenErr)
+		}
 		go func() {
 			handler := http.NewServeMux()
 			logger.WithField("listenAddr", DefaultMetricsListenAddr).Infoln("metrics enabled, starting listener")
 			handler.Handle("/metrics", promhttp.HandlerFor(metricsRegistry, promhttp.HandlerOpts{}))
-			if listenErr := http.ListenAndServe(DefaultMetricsListenAddr, handler); listenErr != nil {
-				logger.WithError(listenErr).Errorln("unable to start metrics listener")
+			if serveErr := http.Serve(listener, handler); serveErr != nil {
+				logger.WithError(serveErr).Errorln("metrics listener failed")
 			}
 		}()
 	}
@@ -290,11 +295,14 @@ func (bs *bootstrap) configure(ctx context.Context, cmd *cobra.Command, args []s
 	pprofListenAddr, _ := cmd.Flags().GetString("pprof-listen")
 	if withPprof && pprofListenAddr != "" {
 		runtime.SetMutexProfileFraction(5)
+		listener, listenErr := net.Listen("tcp", pprofListenAddr)
+		if listenErr != nil {
+			return fmt.Errorf("unable to start pprof listener: %w", listenErr)
+		}
 		go func() {
-			pprofListen := pprofListenAddr
-			logger.WithField("listenAddr", pprofListen).Infoln("pprof enabled, starting listener")
-			if listenErr := http.ListenAndServe(pprofListen, nil); listenErr != nil {
-				logger.WithError(listenErr).Errorln("unable to start pprof listener")
+			logger.WithField("listenAddr", pprofListenAddr).Infoln("pprof enabled, starting listener")
+			if serveErr := http.Serve(listener, nil); serveErr != nil {
+				logger.WithError(serveErr).Errorln("pprof listener failed")
 			}
 		}()
 	}
-- 
2.43.0


From 94b48a6ab06b4843f8afe716dd189f147cb9b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:34:13 +0000
Subject: [PATCH 44/45] fix: report LDIF searches which end early as failed

A search on an LDIF source which was in progress, or was sent, while the
server stopped was answered with success although entries were missing.
The entries are pumped through a channel, and closing it early looked the
same as the end of the entries. Tell both apart.
---
 server/handler/ldif/handler.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 83386af..d7e0bf0 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -304,8 +304,8 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
 					// There is nothing to return for an abandoned search.
-					pumpCh = make(chan *ldifEntry)
-					close(pumpCh)
+					pumpCh = make(chan *ldifEntry, 1)
+					pumpCh <- nil
 				}
 			}
 		} else {
@@ -336,11 +336,17 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 	var entries []*ldap.Entry
 	var entry *ldap.Entry
 	var count uint32
-	var keep bool
+	var keep, ok bool
 results:
 	for {
 		select {
-		case entryRecord = <-pumpCh:
+		case entryRecord, ok = <-pumpCh:
+			if !ok {
+				// The pump gave up early, so there are entries missing.
+				return ldapserver.ServerSearchResult{
+					ResultCode: ldap.LDAPResultUnavailable,
+				}, errors.New("search aborted")
+			}
 			if entryRecord == nil {
 				// All done, set cookie to empty.
 				pagingCookie = []byte{}
@@ -497,11 +503,10 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 			}
 		}
 	}
-	if pagingControl != nil {
-		// Keep the cookie until the client got to know that there are no more
-		// entries, it might have received the last one as end of a full page.
-		pump(nil)
-	}
+	// Tell that there are no more entries. This also keeps the cookie until the
+	// client got to know, it might have received the last one as end of a full
+	// page.
+	pump(nil)
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From e65ddfe7685f23948b72590dfa238f0521373f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:34:18 +0000
Subject: [PATCH 45/45] fix: keep all values of loaded attributes on modify

A loaded entry can have the same attribute more than once in different
spellings. Adding to or deleting from such an attribute used the values of
the first one only and stored the result for all of them, so values were
lost. Use the values of all of them and store the result once.
---
 pkg/ldapentry/ldapentry.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index f22f77a..10749a4 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -29,7 +29,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 		nType := casefold.String(c.Modification.Type)
 		switch c.Operation {
 		case ldap.AddAttribute:
-			newValues := entryApplyModAdd(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModAdd(entryValues(newEntry.Attributes, nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 
 		case ldap.ReplaceAttribute:
@@ -65,23 +65,36 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(entryValues(newEntry.Attributes, nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
 	return newEntry, nil
 }
 
+// entryValues returns the values of the attribute with the provided (case-folded)
+// type. Loaded entries can have it more than once, in different spellings.
+func entryValues(ea []*ldap.EntryAttribute, nType string) (values []string) {
+	casefold := cases.Fold()
+	for _, attr := range ea {
+		if casefold.String(attr.Name) == nType {
+			values = append(values, attr.Values...)
+		}
+	}
+	return values
+}
+
 func entryReplaceValues(ea []*ldap.EntryAttribute, attrType string, newValues []string) (updatedAttrs []*ldap.EntryAttribute) {
 	casefold := cases.Fold()
 	nType := casefold.String(attrType)
 	updated := false
 	for _, attr := range ea {
 		if casefold.String(attr.Name) == nType {
-			updated = true
-			if len(newValues) == 0 {
+			if updated || len(newValues) == 0 {
+				updated = true
 				continue
 			}
+			updated = true
 			updatedAttrs = append(updatedAttrs, ldap.NewEntryAttribute(attr.Name, newValues))
 		} else {
 			updatedAttrs = append(updatedAttrs, attr)
-- 
2.43.0

