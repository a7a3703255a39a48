From e0fdca644da4381f0cfe4ea54cebb29594d111d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 01/48] fix: Reset clears the scalar bits, so a recycled or
 retagged value no longer shows its former number

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..17c2a7f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -321,6 +321,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.DataType = dt
 	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = false
 	switch dt {
 	case VT_Object:
-- 
2.43.0


From b705847a9984089cee622aa6f7ec97b144ca12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 02/48] fix: Bool of a floating point value compares the
 number, not its bit pattern

---
 dxvalue.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 17c2a7f..31b9742 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -877,10 +877,11 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 }
 
 func (v *DxValue)Bool()bool  {
-	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
-		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
-	}
 	switch v.DataType {
+	case VT_Int:
+		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
+	case VT_Float,VT_Double,VT_DateTime:
+		return v.Double() > 0
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-- 
2.43.0


From 86c4562eae5d7e6e4c28f38e9958309127d9a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 03/48] fix: clone copies binary payloads and ext types and
 never aliases a mutable true/false/nan/inf

---
 dxvalue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 31b9742..91a5267 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -552,10 +552,11 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v == nil || v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -574,6 +575,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 		for i := 0;i < len(v.farr);i++{
 			rootv.farr = append(rootv.farr, v.farr[i].clone(c))
 		}
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append([]byte(nil),v.fbinary...)
 	}
 	return rootv
 }
-- 
2.43.0


From 0bd1c759550687142934f2312b58a6caf7df09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 04/48] fix: CopyFrom copies binary payloads and ext types,
 honours the given cache for arrays, and survives self copy

---
 dxvalue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 91a5267..5f8c862 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -602,7 +602,11 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v == fromv || v.ReadOnly(){
+		return
+	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -615,12 +619,16 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
 		}
 	case VT_Array:
-		c := v.ownercache
+		if c == nil{
+			c = v.ownercache
+		}
 		for i := 0;i < len(fromv.farr);i++{
 			v.farr = append(v.farr, fromv.farr[i].clone(c))
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append([]byte(nil),fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 65655e4a8de29026554c307f535b25247ba197b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 05/48] fix: AddFrom keeps the keys the target already has
 instead of storing duplicates or mixing escaped and plain keys

---
 dxvalue.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 5f8c862..1cbd2fa 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -587,14 +587,20 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		v.fobject.UnEscapestrs()
+		fromv.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
+				continue
+			}
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
 			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
 		}
 	case VT_Array:
-		c := v.ownercache
+		if c == nil{
+			c = v.ownercache
+		}
 		for i := 0;i < len(fromv.farr);i++{
 			v.farr = append(v.farr, fromv.farr[i].clone(c))
 		}
-- 
2.43.0


From ffeac0da0724f1eda9e718d16e240dfe0e33fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 06/48] fix: Equal compares array lengths, decoded string
 contents, and is case sensitive for every string form

---
 dxvalue.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 1cbd2fa..b834429 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -487,7 +487,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	if v.DataType != value.DataType {
 		if v.DataType == VT_String && value.DataType == VT_RawString ||
 			value.DataType == VT_String && v.DataType == VT_RawString{
-			return strings.EqualFold(v.String(),value.String())
+			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
 			return v.Double() == value.Double()
@@ -495,8 +495,10 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 		return false
 	}
 	switch v.DataType {
-	case VT_String,VT_RawString:
+	case VT_String:
 		return v.fstrvalue == value.fstrvalue
+	case VT_RawString:
+		return v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
 		return bytes.Compare(v.fbinary,value.fbinary) == 0
 	case VT_Object:
@@ -512,7 +514,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From 899d59bb016ca0822e60e3882b1e22df479d64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 07/48] fix: KeyNameByIndex and Visit report decoded key names

---
 dxvalue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index b834429..654104c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1338,6 +1338,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1347,6 +1348,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
-- 
2.43.0


From 00b32b94ad3e502942fbc5d1e4b62aea2ae3aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 08/48] fix: SetKey over a nil member creates the value instead
 of panicking

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 654104c..5111241 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1157,7 +1157,7 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 	idx := v.fobject.indexByName(Name)
 	if idx >= 0{
 		result := v.fobject.strkvs[idx].V
-		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
+		if result == nil || result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
 		}else if result.DataType != tp {
-- 
2.43.0


From 51bcd5d05d9caa1b8d2cfc2ae5259cdb845eef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 09/48] fix: MergeWith merges every key, unions nested arrays,
 passes exact key paths and leaves shared constants alone

---
 dxvalue.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 5111241..c200aef 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -412,47 +412,54 @@ const(
 
 type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
-func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
-	mergeOp := MO_Normal
+func mergeObject(parentpath string,v,value *DxValue,mergefunc MergeFunc)  {
+	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
+			mergeOp := MO_Normal
+			keyPath := value.fobject.strkvs[i].K
+			if parentpath != ""{
+				keyPath = parentpath + "/" + keyPath
+			}
+			oldv := v.fobject.strkvs[idx].V
+			newv := value.fobject.strkvs[i].V
 			if mergefunc!=nil{
-				if len(parentpath) != 0{
-					parentpath = append(parentpath,'/')
-				}
-				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				mergeOp = mergefunc(keyPath,oldv,newv)
 			}
 			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+				if oldv != nil && oldv.DataType <= VT_Array{
+					if newv != nil && oldv.DataType == newv.DataType{
+						mergeValue(keyPath,oldv,newv,mergefunc)
+					}
 				}else{
 					//合并成数组
-					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
-					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
+					arr := NewValue(VT_Array)
+					arr.SetIndexValue(0,oldv)
+					arr.SetIndexValue(1,newv.clone(nil))
+					v.fobject.strkvs[idx].V = arr
 				}
 			}else if mergeOp == MO_Replace{
 				//直接替换
-				v.fobject.strkvs[idx].V.Reset(VT_NULL)
-				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
+				v.fobject.strkvs[idx].V = newv.clone(nil)
 			}
 		}else{
 			//没有，直接增加
 			v.SetKeyValue(value.fobject.strkvs[i].K,value.fobject.strkvs[i].V.clone(nil))
 		}
 	}
-	return parentpath
 }
 
 func (v *DxValue)MergeWith(value *DxValue,mergefunc MergeFunc)  {
 	if value == nil || v == nil || value.DataType != v.DataType || v.DataType > VT_Array{
 		return
 	}
+	mergeValue("",v,value,mergefunc)
+}
+
+func mergeValue(parentpath string,v,value *DxValue,mergefunc MergeFunc)  {
 	if v.DataType == VT_Object{
-		mergeObject(make([]byte,0,16),v,value,mergefunc)
+		mergeObject(parentpath,v,value,mergefunc)
 		return
 	}
 
-- 
2.43.0


From f9a798f0e11bd2a30c19bb755e62ce339273c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 10/48] fix: String and formatted output of a short binary
 value no longer panic

---
 bin_value.go | 8 ++++++++
 dxvalue.go   | 6 +++---
 jsonparse.go | 6 +++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..77cb678 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -13,6 +13,14 @@ func (v *DxValue)BinExtType()byte{
 	return 0
 }
 
+//取二进制的前n个字节，不足n个时返回全部
+func binHead(b []byte,n int)[]byte  {
+	if len(b) > n{
+		return b[:n]
+	}
+	return b
+}
+
 func (v *DxValue)BinLen()int  {
 	switch v.DataType {
 	case VT_ExBinary:
diff --git a/dxvalue.go b/dxvalue.go
index c200aef..e4d46b4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -758,18 +758,18 @@ func (v *DxValue)String()string  {
 		case uint8(BSON_ObjectID):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
 			dst = append(dst,'"','}')
 
 		case uint8(BSON_Decimal128):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,16))...)
 			dst = append(dst,'"','}')
 		default:
 			dst = make([]byte,0,128)
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
 			dst = append(dst,')')
 		}
 		return DxCommonLib.FastByte2String(dst)
diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..ae6fd74 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -773,15 +773,15 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		switch v.ExtType {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
 			dst = append(dst,'"','}')
 		case uint8(BSON_Decimal128):
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,16))...)
 			dst = append(dst,'"','}')
 		default:
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
 			dst = append(dst,')')
 		}
 	case VT_String:
-- 
2.43.0


From 5bb3e0347f812886cc499612967ff7959f81f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:13 +0000
Subject: [PATCH 11/48] fix: SetBinary allocates instead of overwriting a
 buffer the caller shared earlier

---
 bin_value.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 77cb678..38f4e92 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -63,18 +63,17 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			v.fbinary = append([]byte(nil),b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-				v.fbinary = append(v.fbinary[:0],b...)
+				v.fbinary = append([]byte(nil),b...)
 			}else{
 				v.fbinary = b
 			}
-- 
2.43.0


From a12b0d1689288b1aec466f3fe494b909a6f75e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:14 +0000
Subject: [PATCH 12/48] fix: SaveBinaryToFile opens the file for writing

---
 bin_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin_value.go b/bin_value.go
index 38f4e92..bb5bb8f 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -83,7 +83,7 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 
 func (v *DxValue)SaveBinaryToFile(fileName string)error  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
 			defer file.Close()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
-- 
2.43.0


From 3f496e11a81a088b047f5eb803a8e457b1b27d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 13/48] fix: MsgPack decoding rejects truncated maps and exts
 and the reserved code, and LoadFromMsgPack always sets the decoded type

---
 dxvalue.go      |  2 ++
 msgpackparse.go | 27 ++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index e4d46b4..7e24bbe 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -193,6 +193,8 @@ func (v *DxValue)Clear()  {
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
+	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = false
 	switch v.DataType {
 	case VT_Object:
diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..b3a225a 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,9 +31,13 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
+	if len(b) == 0{
+		return b,ErrUnKnownCode
+	}
 	if !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
@@ -72,6 +76,9 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
+	if len(b) == 0{
+		return nil,b,ErrUnKnownCode
+	}
 	if !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
@@ -140,11 +147,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -290,11 +297,11 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -323,6 +330,8 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		return nil,b,ErrInvalidateCode
 	}
 	return
 }
@@ -338,11 +347,13 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
 			v.fstrvalue = string(strbt)
 		}
+		return tail,nil
 	case code.IsArray():
 		return parseMsgPackArray2V(code,b,v,sharebinary)
 	case code.IsMap():
@@ -411,6 +422,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -434,6 +446,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -449,12 +462,13 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -474,12 +488,15 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		return b,ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From 36b101b12d7a0ca6cb9cc6fdd6fda402d146a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 14/48] fix: MsgPack ext encoding writes exactly one header and
 always a type byte

---
 msgpack_value.go | 10 +++++-----
 msgpackparse.go  |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..6970a1c 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -169,15 +169,15 @@ func getExtcode(exbinLen int)MsgPackCode  {
 func writeExtCode(exlen int,dst []byte)[]byte  {
 	switch exlen {
 	case 1:
-		dst = append(dst,byte(CodeFixExt1))
+		return append(dst,byte(CodeFixExt1))
 	case 2:
-		dst = append(dst,byte(CodeFixExt2))
+		return append(dst,byte(CodeFixExt2))
 	case 4:
-		dst = append(dst,byte(CodeFixExt4))
+		return append(dst,byte(CodeFixExt4))
 	case 8:
-		dst = append(dst,byte(CodeFixExt8))
+		return append(dst,byte(CodeFixExt8))
 	case 16:
-		dst = append(dst,byte(CodeFixExt16))
+		return append(dst,byte(CodeFixExt16))
 	}
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
diff --git a/msgpackparse.go b/msgpackparse.go
index b3a225a..bb1571f 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -586,6 +586,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 			blen = len(v.fbinary[1:])
 		}
 		dst = writeExtCode(blen,dst)
+		if len(v.fbinary) == 0{
+			//没有指定过类型，写入默认的类型0
+			dst = append(dst,0)
+		}
 		//直接写入内容
 		dst = append(dst,v.fbinary...)
 	case VT_Binary:
-- 
2.43.0


From 8a8e22ed1d2ff4f10d34878951d65dc90ff7e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 15/48] fix: MsgPack encoding writes decoded keys and strings
 of values parsed from JSON

---
 msgpackparse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index bb1571f..426251f 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -535,6 +535,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		l := len(v.fobject.strkvs)
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
@@ -605,9 +606,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
+		vstr := v.String()
+		l := len(vstr)
 		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		dst = append(dst,DxCommonLib.FastString2Byte(vstr)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From b5558a01d331fbe181caa9f5077246d0f5b8a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 16/48] fix: MsgPack encoding of NaN and infinity constants
 writes a double instead of nothing

---
 msgpackparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index 426251f..e040029 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -616,6 +616,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeTrue))
 	case VT_NULL:
 		dst = append(dst,byte(CodeNil))
+	case VT_NAN:
+		dst = append(dst,byte(CodeDouble),0x7f,0xf8,0,0,0,0,0,1)
+	case VT_INF:
+		dst = append(dst,byte(CodeDouble),0x7f,0xf0,0,0,0,0,0,0)
 	}
 	return dst
 }
\ No newline at end of file
-- 
2.43.0


From af4cb50c751d7ffa680fb80edbee64444a39c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 17/48] fix: JSON object keys that contain an escape are parsed
 instead of rejected

---
 jsonparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonparse.go b/jsonparse.go
index ae6fd74..8062029 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -235,6 +235,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return
 		}
 	}
 	return "", nil, &ErrorParseJson{
-- 
2.43.0


From 63faf1504a3fe6a349903f3f405150fc8cdccb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:06 +0000
Subject: [PATCH 18/48] fix: JSON numbers at the end of input, with exponents,
 beyond int64 or with decimals keep their value, malformed ones are errors

---
 jsonparse.go | 142 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 79 insertions(+), 63 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 8062029..e260c4b 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -478,7 +478,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -535,7 +535,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
@@ -547,78 +547,94 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	return parseJsonNum2V(b,v)
 }
 
-func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
-	isfloat := false
-	for i := 0; i < len(b); i++ {
+//scanJsonNum 取出数值串以及剩余的内容，如果是inf或者nan，则返回对应的类型
+func scanJsonNum(b []byte)(ns,tail []byte,dt ValueType,err error)  {
+	dt = VT_Int
+	i := 0
+	for ; i < len(b); i++ {
 		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+		if ch >= '0' && ch <= '9' || ch == '-' || ch == '+' {
 			continue
 		}
-		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
-			if len(b[i:]) >= 3 {
-				xs := b[i : i+3]
-				if bytes.EqualFold(xs, infbyte) {
-					num.Reset(VT_INF)
-					return b[i+3:], nil
-				}
-				if bytes.EqualFold(xs, nanbyte){
-					num.Reset(VT_NAN)
-					return b[i+3:], nil
-				}
+		if ch == '.' || ch == 'e' || ch == 'E'{
+			dt = VT_Double
+			continue
+		}
+		break
+	}
+	if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
+		if len(b[i:]) >= 3 {
+			xs := b[i : i+3]
+			if bytes.EqualFold(xs, infbyte) {
+				return nil,b[i+3:],VT_INF, nil
+			}
+			if bytes.EqualFold(xs, nanbyte){
+				return nil,b[i+3:],VT_NAN, nil
 			}
-			return b, errors.New("无效的Json格式")
 		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetInt(v)
+		return nil,b,dt,errors.New("无效的Json格式")
+	}
+	return b[:i],b[i:],dt,nil
+}
+
+//convertJsonNum 转换数值，超过int64范围的整数用Double表示
+func convertJsonNum(ns []byte,dt ValueType)(iv int64,fv float64,numType ValueType,err error)  {
+	str := DxCommonLib.FastByte2String(ns)
+	if dt == VT_Int{
+		if iv,err = strconv.ParseInt(str,10,64);err == nil{
+			return iv,0,VT_Int,nil
 		}
-		return b, nil
 	}
-	return nil, nil
+	if fv,err = strconv.ParseFloat(str,64);err != nil{
+		return 0,0,VT_Double,errors.New("无效的Json格式")
+	}
+	return 0,fv,VT_Double,nil
+}
+
+func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
+	ns,tail,dt,err := scanJsonNum(b)
+	if err != nil{
+		return tail,err
+	}
+	if dt == VT_INF || dt == VT_NAN{
+		num.Reset(dt)
+		return tail,nil
+	}
+	iv,fv,dt,err := convertJsonNum(ns,dt)
+	if err != nil{
+		return b,err
+	}
+	num.Reset(dt)
+	if dt == VT_Int{
+		num.SetInt(iv)
+	}else{
+		num.SetDouble(fv)
+	}
+	return tail,nil
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
-	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
-		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
-		}
-		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
-			if len(b[i:]) >= 3 {
-				xs := b[i : i+3]
-				if bytes.EqualFold(xs, infbyte) {
-					return valueINF, b[i+3:], nil
-				}
-				if bytes.EqualFold(xs, nanbyte){
-					return valueNAN, b[i+3:], nil
-				}
-			}
-			return nil, b, errors.New("无效的Json格式")
-		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Int)
-			num.SetInt(v)
-		}
-		return num, b, nil
+	ns,tail,dt,err := scanJsonNum(b)
+	if err != nil{
+		return nil,tail,err
+	}
+	switch dt {
+	case VT_INF:
+		return valueINF,tail,nil
+	case VT_NAN:
+		return valueNAN,tail,nil
+	}
+	iv,fv,dt,err := convertJsonNum(ns,dt)
+	if err != nil{
+		return nil,b,err
+	}
+	num = c.getValue(dt)
+	if dt == VT_Int{
+		num.SetInt(iv)
+	}else{
+		num.SetDouble(fv)
 	}
-	return nil, nil, nil
+	return num,tail,nil
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From b1e07e0be1f5d9b8192e3779f484a194f992e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:31 +0000
Subject: [PATCH 19/48] fix: formatting a JSON parse error without data or past
 the end of the data no longer panics

---
 jsonparse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index e260c4b..05c77a2 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,10 +54,14 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
-	if l > err.InvalidIndex + 32{
-		l = err.InvalidIndex + 32
+	start := err.InvalidIndex
+	if start > l{
+		start = l
 	}
-	b = b[err.InvalidIndex:l]
+	if l > start + 32{
+		l = start + 32
+	}
+	b = b[start:l]
 	return fmt.Sprintf("解析在数据%s处发生错误：%s",string(b),err.Type.String())
 }
 
-- 
2.43.0


From ee7c4a3462f46953cee036297f44f3a9d7d33028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:32 +0000
Subject: [PATCH 20/48] fix: LoadFromJson sets the loaded type, rejects
 trailing data and keeps no half-parsed member after an error

---
 dxvalue.go   | 14 ++++++++++++--
 jsonparse.go | 11 ++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 7e24bbe..6942f0e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -273,8 +273,18 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
-	return err
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err != nil{
+		return err
+	}
+	if b,skiplen := skipWB(tail);len(b) > 0{
+		return &ErrorParseJson{
+			Type:         JET_Invalidate,
+			InvalidIndex: skiplen,
+			parseB:       tail,
+		}
+	}
+	return nil
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
diff --git a/jsonparse.go b/jsonparse.go
index 05c77a2..b6b6cc7 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -165,8 +165,9 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 		tail = b[1:]
 		return
 	}
+	var key string
+	var value *DxValue
 	for{
-		kv := v.fobject.getKv()
 		oldb := b
 		b,skiplen = skipWB(b)
 		if len(b) == 0 || b[0] != '"' {
@@ -176,7 +177,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 				parseB:oldb,
 			}
 		}
-		kv.K, b, err = parseJsonKey(b[1:],sharebinary)
+		key, b, err = parseJsonKey(b[1:],sharebinary)
 		if err != nil{
 			return b,err
 		}
@@ -193,10 +194,12 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary)
+		value, b, err = parseJsonValue(b,v.ownercache,sharebinary)
 		if err != nil {
 			return b,err
 		}
+		kv := v.fobject.getKv()
+		kv.K,kv.V = key,value
 		oldb = b
 		b,skiplen = skipWB(b)
 		if len(b) == 0 {
@@ -501,9 +504,11 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 		}
 	}
 	if b[0] == '{'{
+		v.Reset(VT_Object)
 		return parseJsonObj2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '[' {
+		v.Reset(VT_Array)
 		return parseJsonArray2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '"' {
-- 
2.43.0


From 494e6f539280024c906eec488190d03816be1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:19 +0000
Subject: [PATCH 21/48] fix: JSON output of NaN, infinity, binaries and absent
 members is a value instead of nothing, unquoted text or a panic

---
 jsonparse.go | 50 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index b6b6cc7..160e1c6 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -673,6 +673,9 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 	switch v.DataType {
 	case VT_Object:
 		dst = append(dst,'{')
@@ -750,10 +753,33 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
+	case VT_NAN:
+		dst = append(dst,"NaN"...)
+	case VT_INF:
+		dst = append(dst,"+Inf"...)
+	case VT_Binary,VT_ExBinary:
+		dst = appendJsonBinary(v,dst)
 	}
 	return dst
 }
 
+//二进制没有对应的Json类型，BSON的扩展类型用对象，其他的用字符串表示
+func appendJsonBinary(v *DxValue,dst []byte)[]byte  {
+	switch v.ExtType {
+	case uint8(BSON_ObjectID):
+		dst = append(dst,`{"$oid":"`...)
+		dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
+		return append(dst,'"','}')
+	case uint8(BSON_Decimal128):
+		dst = append(dst,`{"Decimal128":"`...)
+		dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,16))...)
+		return append(dst,'"','}')
+	}
+	dst = append(dst,`"Bin(`...)
+	dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
+	return append(dst,`)"`...)
+}
+
 func Value2FormatJson(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst []byte)[]byte  {
 	return formatValue(v,escapeStyle,escapeDatetime,dst,0)
 }
@@ -763,6 +789,9 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = make([]byte,0,256)
 	}
 
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 	formatSpace := func(level int) {
 		for i := 0;i<level;i++{
 			dst = append(dst,' ',' ')
@@ -795,21 +824,6 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
 		dst = append(dst,'}')
-	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
-			dst = append(dst,'"','}')
-		case uint8(BSON_Decimal128):
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,16))...)
-			dst = append(dst,'"','}')
-		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(binHead(v.fbinary,12))...)
-			dst = append(dst,')')
-		}
 	case VT_String:
 		dst = append(dst,'"')
 		if escapeStyle == JSE_NoEscape {
@@ -860,6 +874,12 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
+	case VT_NAN:
+		dst = append(dst,"NaN"...)
+	case VT_INF:
+		dst = append(dst,"+Inf"...)
+	case VT_Binary,VT_ExBinary:
+		dst = appendJsonBinary(v,dst)
 	}
 	return dst
 }
-- 
2.43.0


From d124f74a92d2bed12eb9d7be40ead49afb4ae378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:20 +0000
Subject: [PATCH 22/48] fix: JSON strings and keys are unescaped as JSON:
 percent signs are kept and surrogate pairs are combined

---
 dxvalue.go   |  4 +--
 jsonparse.go | 85 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 87 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 6942f0e..9603900 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -138,7 +138,7 @@ func (obj *VObject)UnEscapestrs()  {
 	}
 	for i := range obj.strkvs {
 		kv := &obj.strkvs[i]
-		kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+		kv.K = jsonUnescape(kv.K)
 	}
 	obj.keysUnescaped = true
 }
@@ -788,7 +788,7 @@ func (v *DxValue)String()string  {
 	case VT_ExBinary:
 	case VT_RawString:
 		v.DataType = VT_String
-		v.fstrvalue = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
+		v.fstrvalue = jsonUnescape(v.fstrvalue)
 		return v.fstrvalue
 	case VT_Object,VT_Array:
 		return DxCommonLib.FastByte2String(Value2FormatJson(v,JSE_OnlyAnsiChar,false,nil))
diff --git a/jsonparse.go b/jsonparse.go
index 160e1c6..c7da37f 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -7,6 +7,9 @@ import (
 	"github.com/suiyunonghen/DxCommonLib"
 	"os"
 	"strconv"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 type JsonErrType	uint8
@@ -661,6 +664,88 @@ func skipWB(b []byte) (r []byte,skiplen int) {
 	return nil,0
 }
 
+//读取转义的4位16进制字符
+func jsonHex4(s string)(r rune,ok bool)  {
+	if len(s) < 4{
+		return 0,false
+	}
+	for i := 0;i<4;i++{
+		c := s[i]
+		switch {
+		case c >= '0' && c <= '9':
+			c -= '0'
+		case c >= 'a' && c <= 'f':
+			c -= 'a' - 10
+		case c >= 'A' && c <= 'F':
+			c -= 'A' - 10
+		default:
+			return 0,false
+		}
+		r = r << 4 | rune(c)
+	}
+	return r,true
+}
+
+//jsonUnescape 按照Json的规范解转义，无效的转义原样保留
+func jsonUnescape(s string)string  {
+	idx := strings.IndexByte(s,'\\')
+	if idx < 0{
+		return s
+	}
+	buf := make([]byte,0,len(s))
+	for idx >= 0{
+		buf = append(buf,s[:idx]...)
+		if idx + 1 >= len(s){
+			s = s[idx:]
+			break
+		}
+		c := s[idx+1]
+		s = s[idx+2:]
+		switch c {
+		case 'a':
+			buf = append(buf,'\a')
+		case 'b':
+			buf = append(buf,'\b')
+		case 'f':
+			buf = append(buf,'\f')
+		case 'n':
+			buf = append(buf,'\n')
+		case 'r':
+			buf = append(buf,'\r')
+		case 't':
+			buf = append(buf,'\t')
+		case 'v':
+			buf = append(buf,'\v')
+		case '\\','"','\'','/':
+			buf = append(buf,c)
+		case 'u':
+			r,ok := jsonHex4(s)
+			if !ok{
+				buf = append(buf,'\\','u')
+				break
+			}
+			s = s[4:]
+			if utf16.IsSurrogate(r){
+				//高低位代理组成一个字符
+				r2 := rune(0)
+				if len(s) > 1 && s[0] == '\\' && s[1] == 'u'{
+					r2,_ = jsonHex4(s[2:])
+				}
+				if r = utf16.DecodeRune(r,r2);r != utf8.RuneError{
+					s = s[6:]
+				}
+			}
+			l := len(buf)
+			buf = append(buf,0,0,0,0)
+			buf = buf[:l+utf8.EncodeRune(buf[l:],r)]
+		default:
+			buf = append(buf,'\\',c)
+		}
+		idx = strings.IndexByte(s,'\\')
+	}
+	return string(append(buf,s...))
+}
+
 type JsonEscapeStyle	uint8
 const(
 	JSE_NoEscape JsonEscapeStyle = iota
-- 
2.43.0


From 5614ce965bc1fdc56bbab97b15fde9e5ec9481ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 23/48] fix: JSON output escapes every key and string as JSON
 requires, and only as JSON allows

---
 jsonparse.go | 69 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index c7da37f..c9afb65 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -754,6 +754,46 @@ const(
 )
 
 
+func appendJsonU(dst []byte,r rune)[]byte  {
+	const hex = "0123456789abcdef"
+	return append(dst,'\\','u',hex[r>>12&0xF],hex[r>>8&0xF],hex[r>>4&0xF],hex[r&0xF])
+}
+
+//appendJsonEscape 按照Json的规范转义字符串
+func appendJsonEscape(dst []byte,str string,escapeUnicode bool)[]byte  {
+	for _,r := range str{
+		switch {
+		case r == '"' || r == '\\':
+			dst = append(dst,'\\',byte(r))
+		case r == '\b':
+			dst = append(dst,'\\','b')
+		case r == '\f':
+			dst = append(dst,'\\','f')
+		case r == '\n':
+			dst = append(dst,'\\','n')
+		case r == '\r':
+			dst = append(dst,'\\','r')
+		case r == '\t':
+			dst = append(dst,'\\','t')
+		case r < ' ':
+			dst = appendJsonU(dst,r)
+		case r < utf8.RuneSelf:
+			dst = append(dst,byte(r))
+		case !escapeUnicode:
+			l := len(dst)
+			dst = append(dst,0,0,0,0)
+			dst = dst[:l+utf8.EncodeRune(dst[l:],r)]
+		case r >= 0x10000:
+			r1,r2 := utf16.EncodeRune(r)
+			dst = appendJsonU(appendJsonU(dst,r1),r2)
+		default:
+			dst = appendJsonU(dst,r)
+		}
+	}
+	return dst
+}
+
+
 func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst []byte)[]byte  {
 	if dst == nil{
 		dst = make([]byte,0,256)
@@ -763,6 +803,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		dst = append(dst,'{')
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if i != 0{
@@ -771,18 +812,10 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				dst = append(dst,'"')
 			}
 
-			switch escapeStyle {
-			case JSE_NoEscape:
-				if !v.fobject.keysUnescaped{
-					v.fobject.UnEscapestrs()
-				}
+			if escapeStyle == JSE_NoEscape{
 				dst = append(dst,v.fobject.strkvs[i].K...)
-			default:
-				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
-				}else{
-					dst = append(dst,v.fobject.strkvs[i].K...)
-				}
+			}else{
+				dst = appendJsonEscape(dst,v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape)
 			}
 
 			dst = append(dst,`":`...)
@@ -795,7 +828,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
+			dst = appendJsonEscape(dst,v.fstrvalue,escapeStyle==JSE_AllEscape)
 		}
 
 		dst = append(dst,'"')
@@ -884,6 +917,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		dst = append(dst,'{','\r','\n')
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if i != 0{
@@ -892,15 +926,8 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			formatSpace(level+1)
 			dst = append(dst,'"')
 			if escapeStyle != JSE_NoEscape{
-				if v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
-				}else{
-					dst = append(dst,v.fobject.strkvs[i].K...)
-				}
+				dst = appendJsonEscape(dst,v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape)
 			}else{
-				if !v.fobject.keysUnescaped{
-					v.fobject.UnEscapestrs()
-				}
 				dst = append(dst,v.fobject.strkvs[i].K...)
 			}
 			dst = append(dst,`":`...)
@@ -914,7 +941,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
+			dst = appendJsonEscape(dst,v.fstrvalue,escapeStyle == JSE_AllEscape)
 		}
 		dst = append(dst,'"')
 	case VT_Array:
-- 
2.43.0


From a7ec5b09c4887e10061e214a5c37f5af607dab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:27 +0000
Subject: [PATCH 24/48] fix: loading into a shared constant value is an error
 instead of silently storing members in it

---
 dxvalue.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 9603900..a60f863 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnly = errors.New("constant value is read only")	//共享的常量值不能载入内容
 )
 
 
@@ -259,6 +261,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -268,6 +273,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -288,6 +296,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -319,6 +330,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
-- 
2.43.0


From 43727f3b0d17051db9e62610ea5d158d80b48b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:11 +0000
Subject: [PATCH 25/48] fix: BSON decoding accepts empty documents and rejects
 truncated, unterminated and unsupported input instead of panicking or
 misreading it

---
 bson_parse.go | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..fb927b6 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -27,15 +27,16 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b){
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -84,22 +85,30 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			break
 		}
 	}
+	//文档必须以0结束，且长度和声明的一致
+	if parseIndex != docLen - 1 || b[parseIndex] != 0{
+		return docLen,parseIndex,ErrInvalidBSON
+	}
 	return docLen,parseIndex,nil
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+	if len(b) <= 4{
+		return 0,0,ErrBadBSONDocLen
+	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b){
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -152,10 +161,39 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 			break
 		}
 	}
+	//文档必须以0结束，且长度和声明的一致
+	if parseIndex != docLen - 1 || b[parseIndex] != 0{
+		return docLen,parseIndex,ErrInvalidBSON
+	}
 	return docLen,parseIndex,nil
 }
 
+//固定内容的最小长度，不支持的类型返回-1
+func bsonMinLen(btype BsonType)int  {
+	switch btype {
+	case BSON_Null,BSON_Undefined,BSON_MinKey,BSON_MaxKey:
+		return 0
+	case BSON_Boolean:
+		return 1
+	case BSON_Int32,BSON_String:
+		return 4
+	case BSON_Binary:
+		return 5
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		return 8
+	case BSON_ObjectID:
+		return 12
+	case BSON_Decimal128:
+		return 16
+	}
+	return -1
+}
+
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	minLen := bsonMinLen(btype)
+	if minLen < 0 || len(b) < minLen{
+		return 0,0,ErrInvalidBSON
+	}
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -167,6 +205,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		parseIndex += 4
 		start := parseIndex
 		parseIndex += valueLen
+		if valueLen < 1 || parseIndex > len(b) || b[parseIndex - 1] != 0{
+			return valueLen,start,ErrInvalidBSON
+		}
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
 		if shareBinary{
 			value.SetString(DxCommonLib.FastByte2String(b[start:parseIndex - 1]))
-- 
2.43.0


From d5de7a76378a77db097be13fc3725173c18dacf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 26/48] fix: BSON decoding of binaries keeps payload, subtype
 and position, and int32 keeps its sign

---
 bson_parse.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index fb927b6..1ee3598 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -223,27 +223,36 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		//子类型
 		b = b[parseIndex:]
 		subType := b[0]
-		if subType == 2{
-			parseIndex ++
-			b = b[parseIndex:]
+		if valueLen > len(b) - 1{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
+		switch BsonBinaryType(subType) {
+		case BinaryBinaryOld:
+			b = b[1:valueLen + 1]
 			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
+			if valueLen < 4 || int(binary.LittleEndian.Uint32(b[:4])) != valueLen - 4{
 				return valueLen,parseIndex,ErrInvalidBSON
 			}
+			parseIndex += valueLen + 1
+			b = b[4:]
+			valueLen -= 4
 			value.DataType = VT_Binary
 			value.ExtType = 0
-		}else{
+		case BinaryGeneric:
+			//普通二进制，不需要保留子类型
+			parseIndex += valueLen + 1
+			b = b[1:]
+			value.DataType = VT_Binary
+			value.ExtType = 0
+		default:
 			//VT_ExBinary要将subType带上
 			valueLen ++
+			parseIndex += valueLen
 		}
-		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b[:valueLen:valueLen]
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append([]byte(nil),b[:valueLen]...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
@@ -273,7 +282,7 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_Symbol:
 	case BSON_CodeWithScope:
 	case BSON_Int32:
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
-- 
2.43.0


From a7559f609986036bc062aa7675035c12ada61c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:13 +0000
Subject: [PATCH 27/48] fix: BSON encoding of floats, NaN, infinity and
 binaries of odd length writes a well-formed element

---
 bson_parse.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 1ee3598..2b5b760 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -439,16 +439,19 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
 	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
+		switch bsonBinaryType(v) {
+		case BSON_ObjectID:
 			dst = append(dst,v.fbinary[:12]...)
-		case uint8(BSON_Decimal128):
+		case BSON_Decimal128:
 			dst = append(dst,v.fbinary[:16]...)
 		default:
 			//先写入长度
@@ -459,7 +462,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			dst = append(dst,v.fbinary...)
 		}
 	case VT_ExBinary:
-		if v.ExtType == byte(BSON_Binary){
+		if v.ExtType == byte(BSON_Binary) && len(v.fbinary) > 0{
 			//实际长度需要减去一个子类型占据的位
 			dst = putLittI32(int32(len(v.fbinary)-1),dst)
 		}else{
@@ -479,6 +482,17 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	return dst
 }
 
+//二进制值对应的BSON类型，长度不符合的ObjectID和Decimal128当作普通二进制
+func bsonBinaryType(v *DxValue)BsonType  {
+	if v.DataType == VT_Binary{
+		if v.ExtType == uint8(BSON_ObjectID) && len(v.fbinary) == 12 ||
+			v.ExtType == uint8(BSON_Decimal128) && len(v.fbinary) == 16{
+			return BsonType(v.ExtType)
+		}
+	}
+	return BSON_Binary
+}
+
 func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	if element == nil{
 		dst = append(dst,byte(BSON_Null))
@@ -502,16 +516,12 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 				dst = append(dst,byte(BSON_Int32))
 			}
 		}
-	case VT_Float,VT_Double:
+	case VT_Float,VT_Double,VT_NAN,VT_INF:
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
 	case VT_Binary,VT_ExBinary:
-		if element.ExtType != 0{
-			dst = append(dst,element.ExtType)
-		}else{
-			dst = append(dst,byte(BSON_Binary))
-		}
+		dst = append(dst,byte(bsonBinaryType(element)))
 		/*switch element.ExtType {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,byte(BSON_ObjectID))
-- 
2.43.0


From 412e7343fd9f2cf67608e6e38cd9b634553a7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 28/48] fix: LoadFromBson always sets the loaded value to an
 object

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index a60f863..c1070b3 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -337,6 +337,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
 	return  err
 }
-- 
2.43.0


From b3ad0d633a8e5f6df3ee808e34c2b50c03b91bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:49 +0000
Subject: [PATCH 29/48] fix: SetTime and SetDelphiTime on a double value store
 a time, not a number

---
 dxvalue.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index c1070b3..5bd8e7e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1050,14 +1050,20 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
-	if v.DataType != VT_Double && v.DataType != VT_DateTime{
+	if v.ReadOnly(){
+		return
+	}
+	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
 	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
-	if v.DataType != VT_Double && v.DataType != VT_DateTime{
+	if v.ReadOnly(){
+		return
+	}
+	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
 	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(value)
-- 
2.43.0


From 37c9f437e9992077b185e3f90c9e2d93ca3e7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:50 +0000
Subject: [PATCH 30/48] fix: reading a parsed JSON string as number, bool or
 time decodes its escapes first, as String does

---
 dxvalue.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 5bd8e7e..48c7dc5 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -582,7 +582,7 @@ func (v *DxValue)Int()int64  {
 	case VT_Float:
 		return int64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToIntDef(v.fstrvalue,0)
+		return DxCommonLib.StrToIntDef(v.String(),0)
 	}
 	return 0
 }
@@ -938,7 +938,7 @@ func (v *DxValue)Bool()bool  {
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-		return strings.EqualFold(v.fstrvalue,"true")
+		return strings.EqualFold(v.String(),"true")
 	}
 	return false
 }
@@ -971,7 +971,7 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.fstrvalue,0)
+		return DxCommonLib.StrToFloatDef(v.String(),0)
 	}
 	return 0
 }
@@ -989,7 +989,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.fstrvalue,0))
+		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
 	}
 	return 0
 }
@@ -1012,11 +1012,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 	case VT_Int,VT_Double,VT_Float,VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
 		}
 	}
@@ -1028,11 +1028,11 @@ func (v *DxValue)GoTime()time.Time  {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return t
 		}
 	}
-- 
2.43.0


From 9f0484481d77dbd7fd9a409b44e759de46005a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:30 +0000
Subject: [PATCH 31/48] fix: YAML parsing ends on short last lines, skips blank
 lines, keeps one-character lines and starts every parse with a clean parser

---
 yamlparse.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index d909717..74d16d1 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -52,6 +52,10 @@ func freeyamlParser(parser *yamlParser)  {
 
 func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
+	parser.ifFirstObjEle = false
+	parser.lastOpifMerge = false
+	parser.usecache = false
+	parser.lastSpaceCount = -1
 	parser.root = nil
 	parser.fparentCache = nil
 	for i := 0;i<len(parser.fParsingValues);i++{
@@ -87,8 +91,8 @@ func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 func (parser *yamlParser)popLast(popCount int)  {
 	l := len(parser.fParsingValues)
 	if l > 0{
-		if popCount > l{
-			popCount = l
+		if popCount > l - 1{ //根节点不能弹出
+			popCount = l - 1
 		}
 		for i,j := l - 1,popCount;i>=0 && j > 0;i,j = i-1,j-1{
 			parser.fParsingValues[i].v = nil
@@ -182,7 +186,7 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 
 	//在中间出现了#注释，需要前面有一个空格，有空格的就认为后面是注释
 	lastIndex := bytes.Index(dataLine,commetTag)
-	if lastIndex > 1{
+	if lastIndex > 0{
 		dataLine = dataLine[:lastIndex]
 		if len(dataLine) == 0{
 			//注释不处理
@@ -496,16 +500,15 @@ func (parser *yamlParser)parse()error  {
 				}
 			}
 		}
-		if curLineEnd - istart < 2{
-			istart = curLineEnd + 1
-			if istart == datalen{
-				break
-			}
-			continue
+		lineData := parser.parseData[istart: curLineEnd]
+		if len(lineData) > 0 && lineData[len(lineData) - 1] == '\r'{
+			lineData = lineData[:len(lineData) - 1]
 		}
-		err := parser.parseLine(parser.parseData[istart: curLineEnd],spaceCount)
-		if err != nil{
-			return err
+		if len(bytes.Trim(lineData," \t\r")) > 0{ //空行不处理
+			err := parser.parseLine(lineData,spaceCount)
+			if err != nil{
+				return err
+			}
 		}
 
 		istart = curLineEnd + 1
@@ -527,6 +530,9 @@ func NewValueFromYaml(b []byte,usecache bool)(*DxValue,error)  {
 	}
 	result := parser.root
 	freeyamlParser(parser)
+	if result == nil{ //没有内容
+		result = valueNull
+	}
 	return result,nil
 }
 
-- 
2.43.0


From 8af54beca5d487bcc68bde07e669051ae0d08614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:50 +0000
Subject: [PATCH 32/48] fix: YAML nesting follows the indentation, wherever a
 line dedents to, and conflicting structure is an error instead of lost data

---
 yamlparse.go | 431 ++++++++++++++++++++-------------------------------
 1 file changed, 169 insertions(+), 262 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 74d16d1..e4025c7 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -12,16 +12,13 @@ func spaceTrim(r rune) bool {
 }
 
 type yamlNode struct {
-	isMapArrayNode	bool
+	isArrayElem		bool			//是否是数组的元素
 	spaceCount		int			//空格个数
 	v				*DxValue
 }
 
 type yamlParser struct {
-	ifFirstObjEle		bool				//是否是对象的第一个元素
-	lastOpifMerge		bool				//上一步操作是合并操作
 	usecache			bool
-	lastSpaceCount		int
 	root				*DxValue
 	fparentCache		*ValueCache
 	parseData			[]byte
@@ -52,10 +49,7 @@ func freeyamlParser(parser *yamlParser)  {
 
 func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
-	parser.ifFirstObjEle = false
-	parser.lastOpifMerge = false
 	parser.usecache = false
-	parser.lastSpaceCount = -1
 	parser.root = nil
 	parser.fparentCache = nil
 	for i := 0;i<len(parser.fParsingValues);i++{
@@ -88,91 +82,161 @@ func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 	return nil
 }
 
-func (parser *yamlParser)popLast(popCount int)  {
+//popTo 弹出缩进不小于spaceCount的节点，剩下的最后一个就是当前行的上级，根节点不弹出
+func (parser *yamlParser)popTo(spaceCount int,isArray bool)  {
 	l := len(parser.fParsingValues)
-	if l > 0{
-		if popCount > l - 1{ //根节点不能弹出
-			popCount = l - 1
+	for last := l - 1;l > 1;l--{
+		node := &parser.fParsingValues[l - 1]
+		if node.spaceCount < spaceCount{
+			break
 		}
-		for i,j := l - 1,popCount;i>=0 && j > 0;i,j = i-1,j-1{
-			parser.fParsingValues[i].v = nil
+		//数组的标记可以和所属的key在同一级
+		if isArray && !node.isArrayElem && node.spaceCount == spaceCount && (node.v.DataType == VT_Array || l - 1 == last && yamlEmpty(node.v)){
+			break
 		}
-		parser.fParsingValues = parser.fParsingValues[:l-popCount]
+		node.v = nil
 	}
+	parser.fParsingValues = parser.fParsingValues[:l]
 }
 
-func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
-	var currentValue *DxValue
-	isvalue := false
-	if len(dataLine) > 0{
-		if dataLine[0] != ' '{
-			//判定一下当前的空格数量
-			if spaceCount <= parser.lastSpaceCount{
-				return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-			}
-			//只有大于的时候，才可能认为是上个内容的字符串
-		}
-		dataLine = bytes.TrimFunc(dataLine,spaceTrim)
-		isvalue = len(dataLine) > 0
-	}
-	lastIndex := len(parser.fParsingValues) - 1
-	if lastIndex < 0{
-		if parser.usecache{
-			parser.fparentCache = getCache()
-			currentValue = parser.fparentCache.getValue(VT_Array)
-		}else{
-			currentValue = NewArray(true)
-			parser.fparentCache = currentValue.ValueCache()
-		}
-		parser.root = currentValue
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
+//还没有内容的值
+func yamlEmpty(v *DxValue)bool  {
+	switch v.DataType {
+	case VT_NULL:
+		return true
+	case VT_String:
+		return v.fstrvalue == ""
+	case VT_Object,VT_Array:
+		return v.Count() == 0
+	}
+	return false
+}
+
+//是否是数组元素的行
+func yamlIsArray(dataLine []byte)bool  {
+	return dataLine[0] == '-' && (len(dataLine) == 1 || dataLine[1] == ' ')
+}
+
+func yamlError(dataLine []byte)error  {
+	return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+}
+
+//currentValue 当前行的上级，没有就建立根节点
+func (parser *yamlParser)currentValue(tp ValueType)*DxValue  {
+	if l := len(parser.fParsingValues);l > 0{
+		return parser.fParsingValues[l-1].v
+	}
+	currentValue := parser.root
+	if currentValue != nil{
+		currentValue.Reset(tp)
+		parser.fparentCache = currentValue.ValueCache()
+	}else if parser.usecache{
+		parser.fparentCache = getCache()
+		currentValue = parser.fparentCache.getValue(tp)
 	}else{
-		currentValue = parser.fParsingValues[lastIndex].v
+		currentValue = NewCacheValue(tp)
+		parser.fparentCache = currentValue.ValueCache()
 	}
-	isstrvalue := false
-	if currentValue.DataType == VT_Object{
-		currentValue.Reset(VT_Array)
+	parser.root = currentValue
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
+	return currentValue
+}
+
+//appendText 没有键值结构的行，是上一个字符串内容的延续
+func (parser *yamlParser)appendText(currentValue *DxValue,dataLine []byte)error  {
+	text := bytes.TrimFunc(dataLine,spaceTrim)
+	switch {
+	case len(parser.fParsingValues) == 1:
+		return yamlError(dataLine)
+	case yamlEmpty(currentValue):
+		currentValue.Reset(VT_String)
+		parser.parseStringValue(currentValue,text,true)
+	case currentValue.DataType == VT_Object || currentValue.DataType == VT_Array:
+		return yamlError(dataLine)
+	default:
+		currentValue.SetString(currentValue.String() + " " + string(text))
 	}
-	if currentValue.DataType == VT_Array{
-		if isvalue{
-			currentValue = currentValue.SetIndexCached(-1,VT_String,parser.fparentCache)
-		}else{
-			currentValue = currentValue.SetIndexCached(-1,VT_Array,parser.fparentCache)
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else{
-		isstrvalue = true
+	return nil
+}
+
+//aliasValue 引用的值的副本，不是引用或者引用不存在则返回nil
+func (parser *yamlParser)aliasValue(vstr []byte)*DxValue  {
+	if len(vstr) < 2 || vstr[0] != '*'{
+		return nil
 	}
-	if isvalue{
-		if isstrvalue{
-			currentValue.SetString(currentValue.String() + " "+string(dataLine))
-		}else{
-			k,v,hasKeySplit := parser.splitKv(dataLine)
-			if !hasKeySplit{ //不存在键值分隔符
-				parser.parseStringValue(currentValue,k,true)
+	vstr = vstr[1:]
+	if spaceIndex := bytes.IndexByte(vstr,' ');spaceIndex > -1{
+		vstr = vstr[:spaceIndex]
+	}
+	if useage := parser.getUseage(DxCommonLib.FastByte2String(vstr));useage != nil{
+		return useage.clone(parser.fparentCache)
+	}
+	return nil
+}
 
-			}else{
-				if len(k) == 0{
-					return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-				}
-				//map结构增加
-				currentValue.Reset(VT_Object)
-				//要加上数组标记"- "的长度2
-				parser.fParsingValues[len(parser.fParsingValues) - 1].isMapArrayNode = true
-				parser.ifFirstObjEle = true
-				//parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount = parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount + 2
-				if len(v) == 0{
-					currentValue = currentValue.SetKeyCached(string(k),VT_NULL,parser.fparentCache)
-				}else{
-					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,v,true)
-				}
-				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
+//setMember 设定对象的一个键值
+func (parser *yamlParser)setMember(currentValue *DxValue,dataLine,key,value []byte,spaceCount int,emptyType ValueType)error  {
+	merged,err := parser.mergeObject(currentValue,dataLine,key,value)
+	if merged || err != nil{
+		return err
+	}
+	vkey := string(key)
+	member := parser.aliasValue(value)
+	switch {
+	case member != nil:
+		currentValue.SetKeyValue(vkey,member)
+	case len(value) == 0:
+		member = currentValue.SetKeyCached(vkey,emptyType,parser.fparentCache)
+	case value[0] == '&' && bytes.IndexByte(value,' ') < 0:
+		//引用的，没有空格就是对象引用
+		member = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+		parser.setCachedUseage(string(value[1:]),member)
+	default:
+		member = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
+		parser.parseStringValue(member,value,true)
+	}
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,member})
+	return nil
+}
 
-			}
+func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
+	currentValue := parser.currentValue(VT_Array)
+	if currentValue.DataType != VT_Array{
+		if !yamlEmpty(currentValue){
+			return parser.appendText(currentValue,dataLine)
 		}
+		currentValue.Reset(VT_Array)
 	}
-	return nil
+	value := bytes.TrimFunc(dataLine[1:],spaceTrim)
+	if len(value) == 0{
+		currentValue = currentValue.SetIndexCached(-1,VT_Array,parser.fparentCache)
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
+		return nil
+	}
+	if alias := parser.aliasValue(value);alias != nil{
+		currentValue.SetIndexValue(-1,alias)
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,alias})
+		return nil
+	}
+	offset := bytes.Index(dataLine,value)
+	if yamlIsArray(value){ //- - 直接嵌套的数组
+		currentValue = currentValue.SetIndexCached(-1,VT_Array,parser.fparentCache)
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
+		return parser.parseArray(value,spaceCount + offset)
+	}
+	currentValue = currentValue.SetIndexCached(-1,VT_String,parser.fparentCache)
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
+	k,v,hasKeySplit := parser.splitKv(value)
+	if !hasKeySplit{ //不存在键值分隔符
+		parser.parseStringValue(currentValue,k,true)
+		return nil
+	}
+	if len(k) == 0{
+		return yamlError(dataLine)
+	}
+	//map结构，键值的缩进要加上数组标记"-"以及后面的空格
+	currentValue.Reset(VT_Object)
+	return parser.setMember(currentValue,dataLine,k,v,spaceCount + offset,VT_NULL)
 }
 var(
 	commetTag []byte = []byte{' ','#'}
@@ -195,42 +259,16 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	}
 
 
-	isArray := dataLine[0] == '-'
-	lastIndex = len(parser.fParsingValues) - 1
-	lastSpaceCount := parser.lastSpaceCount
-	if parser.ifFirstObjEle && lastIndex >= 0{
-		if parser.fParsingValues[lastIndex].isMapArrayNode{ // - name: //这种数组和object集合的
-			lastSpaceCount += 2
-		}
-	}
-
-	if  lastSpaceCount > spaceCount{
-		//大于的时候，需要将上一个值写入的弹出,然后还需要将值的parent弹出
-		parser.popLast(2)
-		//然后查找和当前的spaceCount相同的组
-		l := len(parser.fParsingValues)
-		popcount := l
-		for i := l - 1;i>0;i--{
-			if parser.fParsingValues[i].spaceCount < spaceCount{
-				break
-			}else{
-				parser.fParsingValues[i].v = nil
-				popcount--
-			}
-		}
-		parser.fParsingValues = parser.fParsingValues[:popcount]
-	}else if lastSpaceCount == spaceCount{
-		parser.popLast(1)
+	if len(parser.fParsingValues) == 0 && string(bytes.TrimFunc(dataLine,spaceTrim)) == "---"{
+		//文档的开始标记
+		return nil
 	}
-	var err error
+	isArray := yamlIsArray(dataLine)
+	parser.popTo(spaceCount,isArray)
 	if isArray{
-		err = parser.parseArray(dataLine[1:],spaceCount)
-	}else{
-		err = parser.parseObject(dataLine,spaceCount)
+		return parser.parseArray(dataLine,spaceCount)
 	}
-
-	parser.lastSpaceCount = spaceCount
-	return err
+	return parser.parseObject(dataLine,spaceCount)
 }
 
 func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []byte)(bool,error)  {
@@ -261,161 +299,29 @@ func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []
 }
 
 func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
-	var currentValue *DxValue
-	//非数组
-	lastIndex := len(parser.fParsingValues) - 1
-	lastSpaceCount := parser.lastSpaceCount
-	if lastIndex < 0{
-		if parser.usecache{
-			parser.fparentCache = getCache()
-			currentValue = parser.fparentCache.getValue(VT_Object)
-		}else{
-			currentValue = NewObject(true)
-			parser.fparentCache = currentValue.ValueCache()
-		}
-		parser.root = currentValue
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
-	}else{
-		if parser.ifFirstObjEle && parser.fParsingValues[lastIndex].isMapArrayNode{ // - name: //这种数组和object集合的
-			lastSpaceCount += 2
-		}
-		currentValue = parser.fParsingValues[lastIndex].v
-	}
-	if parser.ifFirstObjEle{
-		parser.ifFirstObjEle = false
-	}
-
+	currentValue := parser.currentValue(VT_Object)
 	key,value,hasKeySplit := parser.splitKv(dataLine)
-
-	if lastIndex < 0{
-		if len(key) == 0 || !hasKeySplit{
-			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-		}
+	if len(key) == 0 || !hasKeySplit{
+		return parser.appendText(currentValue,dataLine)
 	}
-	if  lastSpaceCount == spaceCount{
-		//和上一步是同一级，判定一下是否具备KV结构
-		if len(key) == 0 || !hasKeySplit{
-			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+	if currentValue.DataType != VT_Object{
+		if !yamlEmpty(currentValue){
+			return yamlError(dataLine)
 		}
-		//判定一下key是否是需要归并的
-		merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-		if err != nil{
-			return err
-		}
-		if !merged{
-			if value != nil{
-				currentValue = currentValue.SetKeyCached(string(key),VT_String,parser.fparentCache)
-				parser.parseStringValue(currentValue,value,true)
-			}else{
-				//是一个新的对象
-				currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
-			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else if spaceCount > lastSpaceCount{
-		//子集
-		if len(key) == 0{
-			//字符串
-			if currentValue.DataType == VT_Object || currentValue.DataType == VT_Array{
-				return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-			}
-			oldstr := currentValue.String()
-			currentValue.SetString(oldstr + " :"+string(value))
-			return nil
-		}
-		if currentValue.DataType != VT_Object{
-			currentValue.Reset(VT_Object)
-		}
-		merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-		if err != nil{
-			return err
-		}
-		if merged{ //合并
-			parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-			return nil
-		}
-
-		vkey := string(key)
-		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
-		}else{
-			//判定一下是否是引用界定值
-			if value[0] != '&'{
-				if value[0] == '*'{ //引用其他值信息
-					usekey := DxCommonLib.FastByte2String(value[1:])
-					usecache := parser.getUseage(usekey)
-					if usecache != nil{
-						 newvalue := usecache.clone(parser.fparentCache)
-						 currentValue.SetKeyValue(vkey,newvalue)
-						 currentValue = newvalue
-					}else{
-						currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-						currentValue.SetString(string(value))
-					}
-				}else{
-					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,value,true)
-				}
-			}else{
-				//引用的，判定有没有空格，如果有空格的是字符串引用，否则就是对象引用
-				refKey := ""
-				isrefObject := true
-				spaceindex := bytes.IndexByte(value[1:],' ')
-				if spaceindex > 0{
-					refKey = string(value[1:spaceindex+1])
-					value = bytes.TrimFunc(value[spaceindex+1:],spaceTrim)
-					isrefObject = len(value) == 0
-				}else{
-					refKey = string(value[1:])
-				}
-				if isrefObject{
-					currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
-				}else{
-					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,value,true)
-				}
-				parser.setCachedUseage(refKey,currentValue)
-			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else{
-		//完成闭包处理，回到上一个对象处理结构
-		if len(key) == 0 || !hasKeySplit || currentValue.DataType != VT_Object{
-			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-		}
-		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
-		}else{
-			merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-			if err != nil{
-				return err
-			}
-			if !merged{ //合并
-				currentValue = currentValue.SetKeyCached(string(key),VT_String,parser.fparentCache)
-				//currentValue.SetString(string(value))
-				parser.parseStringValue(currentValue,value,true)
-			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
+		currentValue.Reset(VT_Object)
 	}
-
-	return nil
+	return parser.setMember(currentValue,dataLine,key,value,spaceCount,VT_Object)
 }
 
 func (parser *yamlParser)splitKv(dataline []byte)(k,v []byte,bool2 bool)  {
 	dataline = bytes.TrimFunc(dataline,spaceTrim)
-	splitindex := bytes.IndexByte(dataline,':')
-	if splitindex < 0{
-		return dataline,nil,false
-	}
-	if splitindex < len(dataline) - 1{ //必须有一个空格才算是kV结构
-		if dataline[splitindex + 1] == ' '{
-			return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+2:],spaceTrim),true
+	for i := 0;i<len(dataline);i++{
+		//必须是末尾或者有一个空格才算是kV结构
+		if dataline[i] == ':' && (i == len(dataline) - 1 || dataline[i+1] == ' '){
+			return bytes.TrimFunc(dataline[:i],spaceTrim),bytes.TrimFunc(dataline[i+1:],spaceTrim),true
 		}
-		return dataline,nil,false
-	}else{
-		return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+1:],spaceTrim),true
 	}
+	return dataline,nil,false
 }
 
 func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bool)  {
@@ -433,10 +339,12 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 		return
 	}
 	//判定一下是否有使用引用参数的
-	if vstr[0] == '{' && vstr[vlen - 1] == '}'{
-		//解析Json Map格式的串结构
-	}else if vstr[0] == '[' && vstr[vlen - 1] == ']'{
-		//解析Json Array格式的串结构
+	if vstr[0] == '{' && vstr[vlen - 1] == '}' || vstr[0] == '[' && vstr[vlen - 1] == ']'{
+		//解析Json格式的串结构
+		if tail,err := parseJson2Value(vstr,target,false);err != nil || len(tail) > 0{
+			target.Reset(VT_String)
+			target.SetString(string(vstr))
+		}
 	}else if vstr[0] == '&' {
 		//解析出数据
 		if !isfirst{
@@ -454,6 +362,7 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 				parser.parseStringValue(target,value,false) //继续解析
 			}
 		}else {
+			parser.setCachedUseage(string(vstr[1:]),target)
 			target.SetString("")
 		}
 	}else if vstr[0] == '*' {
@@ -481,8 +390,6 @@ func (parser *yamlParser)parse()error  {
 	}
 	istart := 0
 	curLineEnd := 0
-	parser.lastOpifMerge = false
-	parser.lastSpaceCount = -1
 	for {
 		spaceCount := 0
 		isStart := true
-- 
2.43.0


From 661dba394d39d510b2e41a60ec3720b5cc4ff753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:50 +0000
Subject: [PATCH 33/48] fix: LoadFromYaml reads a document as NewValueFromYaml
 does, with its first line's indentation

---
 dxvalue.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 48c7dc5..b4a5dd5 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -300,31 +300,17 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 		return ErrReadOnly
 	}
 	v.Clear()
-	spacount := 0
-	for i := 0;i<len(b);i++{
-		if b[i] == ' ' || b[i] == '\r' || b[i] == '\n' || b[i] == '\t'{
-			spacount++
-			continue
-		}
-		break
-	}
-	b = b[spacount:]
-	if len(b) == 0{
+	if len(bytes.Trim(b," \t\r\n")) == 0{
 		return nil
 	}
-	if b[0] == '-'{
-		v.Reset(VT_Array)
-	}else{
-		v.Reset(VT_Object)
-	}
-
 	parser := newyamParser()
 	parser.parseData = b
 	parser.usecache = false
 	parser.root = v
-	parser.fparentCache = v.ValueCache()
-	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
 	err := parser.parse()
+	if err == nil && len(parser.fParsingValues) == 0{ //没有内容
+		v.Reset(VT_NULL)
+	}
 	freeyamlParser(parser)
 	return err
 }
-- 
2.43.0


From 4f5c57ed4c51410e75620485fd799209bd0fba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 34/48] fix: copying or merging an object into one of its own
 members leaves no member without value

---
 dxvalue.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index b4a5dd5..5ff4127 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -615,9 +615,8 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
 				continue
 			}
-			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			kv := strkv{fromv.fobject.strkvs[i].K,fromv.fobject.strkvs[i].V.clone(c)} //v可能是fromv的成员，先复制再增加
+			*v.fobject.getKv() = kv
 		}
 	case VT_Array:
 		if c == nil{
@@ -642,9 +641,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
-			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			kv := strkv{fromv.fobject.strkvs[i].K,fromv.fobject.strkvs[i].V.clone(c)} //v可能是fromv的成员，先复制再增加
+			*v.fobject.getKv() = kv
 		}
 	case VT_Array:
 		if c == nil{
-- 
2.43.0


From dfec0e25fbd8cde71e74e2b95753d31b3805701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:17 +0000
Subject: [PATCH 35/48] fix: YAML nested sequence marks with nothing behind
 them keep their indentation

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index e4025c7..daadf84 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -218,7 +218,7 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 		parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,alias})
 		return nil
 	}
-	offset := bytes.Index(dataLine,value)
+	offset := len(dataLine) - len(bytes.TrimLeft(dataLine[1:]," ")) //"-"以及后面的空格
 	if yamlIsArray(value){ //- - 直接嵌套的数组
 		currentValue = currentValue.SetIndexCached(-1,VT_Array,parser.fparentCache)
 		parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
-- 
2.43.0


From 187e03e55439dc3713dd01b6da22bd0ee8e9876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 36/48] fix: YAML flow values in sequences are values, not keys

---
 yamlparse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index daadf84..86a5c95 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -315,6 +315,9 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 
 func (parser *yamlParser)splitKv(dataline []byte)(k,v []byte,bool2 bool)  {
 	dataline = bytes.TrimFunc(dataline,spaceTrim)
+	if len(dataline) > 0 && (dataline[0] == '{' || dataline[0] == '['){ //Json格式的值，不是键
+		return dataline,nil,false
+	}
 	for i := 0;i<len(dataline);i++{
 		//必须是末尾或者有一个空格才算是kV结构
 		if dataline[i] == ':' && (i == len(dataline) - 1 || dataline[i+1] == ' '){
-- 
2.43.0


From 715a34868ccd333b84cff5c4b11f8a3ff4fb4a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 37/48] fix: structs with unsigned fields convert instead of
 panicking

---
 reflect_parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..f3db3c4 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -355,9 +355,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						v.SetKeyValue(sfield.Name,valueTrue)
@@ -611,9 +612,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
@@ -841,9 +843,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
-- 
2.43.0


From 2d5c191d9dd1f0ac5904c8e3c1ce9b1d1d5982f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 38/48] fix: nil pointers and nil interfaces are stored as null
 instead of panicking or being dropped

---
 reflect_parse.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index f3db3c4..ca54f02 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -186,10 +186,23 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	return true
 }
 
+//nil接口或者空指针
+func isNilValue(value interface{})bool  {
+	if value == nil{
+		return true
+	}
+	reflectv := reflect.ValueOf(value)
+	return reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
 	}
+	if isNilValue(value){
+		v.Reset(VT_NULL)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetInt(int64(realv))
@@ -352,6 +365,10 @@ func (v *DxValue)SetValue(value interface{})  {
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
 				if fv.Kind() == reflect.Ptr{
+					if fv.IsNil(){
+						v.SetKeyCached(sfield.Name,VT_NULL,cache)
+						continue
+					}
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
@@ -403,6 +420,10 @@ func (v *DxValue)SetValue(value interface{})  {
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
+					if rvalue.IsNil(){
+						v.SetKeyCached(kv.String(),VT_NULL,cache)
+						continue
+					}
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
@@ -456,6 +477,10 @@ func (v *DxValue)SetValue(value interface{})  {
 }
 
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetKeyCached(Name,VT_NULL,cache)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -609,6 +634,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
 				if fv.Kind() == reflect.Ptr{
+					if fv.IsNil(){
+						newv.SetKeyCached(sfield.Name,VT_NULL,cache)
+						continue
+					}
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
@@ -650,6 +679,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
+					if rvalue.IsNil(){
+						newv.SetKeyCached(kv.String(),VT_NULL,cache)
+						continue
+					}
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
@@ -693,6 +726,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 }
 
 func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetIndexCached(idx,VT_NULL,cache)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
@@ -840,6 +877,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
 				if fv.Kind() == reflect.Ptr{
+					if fv.IsNil(){
+						newv.SetKeyCached(sfield.Name,VT_NULL,cache)
+						continue
+					}
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
@@ -881,6 +922,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
+					if rvalue.IsNil(){
+						newv.SetKeyCached(kv.String(),VT_NULL,cache)
+						continue
+					}
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
-- 
2.43.0


From 8498899ba6f5f605f558d091c1e2ef04c4e026ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 39/48] fix: string pointers and values of named scalar types
 are stored instead of dropped

---
 reflect_parse.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index ca54f02..c1eeedc 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -347,6 +347,18 @@ func (v *DxValue)SetValue(value interface{})  {
 			return
 		}*/
 		switch reflectv.Kind(){
+		case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+			v.SetValue(reflectv.Int())
+		case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+			v.SetValue(reflectv.Uint())
+		case reflect.Bool:
+			v.SetValue(reflectv.Bool())
+		case reflect.Float32:
+			v.SetValue(float32(reflectv.Float()))
+		case reflect.Float64:
+			v.SetValue(reflectv.Float())
+		case reflect.String:
+			v.SetValue(reflectv.String())
 		case reflect.Struct:
 			tp := reflectv.Type()
 			if tp == TimeType{
@@ -620,6 +632,18 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			reflectv = reflectv.Elem()
 		}
 		switch reflectv.Kind(){
+		case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+			v.SetKeyvalue(Name,reflectv.Int(),cache)
+		case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+			v.SetKeyvalue(Name,reflectv.Uint(),cache)
+		case reflect.Bool:
+			v.SetKeyvalue(Name,reflectv.Bool(),cache)
+		case reflect.Float32:
+			v.SetKeyvalue(Name,float32(reflectv.Float()),cache)
+		case reflect.Float64:
+			v.SetKeyvalue(Name,reflectv.Float(),cache)
+		case reflect.String:
+			v.SetKeyvalue(Name,reflectv.String(),cache)
 		case reflect.Struct:
 			rtype := reflectv.Type()
 			if rtype == TimeType{
@@ -871,6 +895,18 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			rtype = reflectv.Type()
 		}
 		switch reflectv.Kind(){
+		case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+			v.SetIndexvalue(idx,reflectv.Int(),cache)
+		case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+			v.SetIndexvalue(idx,reflectv.Uint(),cache)
+		case reflect.Bool:
+			v.SetIndexvalue(idx,reflectv.Bool(),cache)
+		case reflect.Float32:
+			v.SetIndexvalue(idx,float32(reflectv.Float()),cache)
+		case reflect.Float64:
+			v.SetIndexvalue(idx,reflectv.Float(),cache)
+		case reflect.String:
+			v.SetIndexvalue(idx,reflectv.String(),cache)
 		case reflect.Struct:
 			newv := v.SetIndexCached(idx,VT_Object,cache)
 			for i := 0;i < rtype.NumField();i++{
-- 
2.43.0


From 7bacdc9842c6ee18308b043d26bf378699b8aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:47 +0000
Subject: [PATCH 40/48] fix: SetValue stores a byte slice as binary and a time
 as time, whatever the value held before

---
 reflect_parse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index c1eeedc..a441369 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -255,9 +255,9 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetTime(realv)
 	case *time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetTime(*realv)
 	case float32:
 		v.SetFloat(realv)
 	case *float32:
@@ -267,8 +267,14 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		if v.DataType != VT_Binary && v.DataType != VT_ExBinary{
+			v.Reset(VT_Binary)
+		}
 		v.SetBinary(realv,true)
 	case *[]byte:
+		if v.DataType != VT_Binary && v.DataType != VT_ExBinary{
+			v.Reset(VT_Binary)
+		}
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
-- 
2.43.0


From 3e473c0816dcacd47e316aa0839f03554dcf2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:47 +0000
Subject: [PATCH 41/48] fix: an empty map is stored as an empty object instead
 of leaving the earlier value

---
 reflect_parse.go | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index a441369..04da407 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -422,20 +422,13 @@ func (v *DxValue)SetValue(value interface{})  {
 				}
 			}
 		case reflect.Map:
-			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if reflectv.Type().Key().Kind() != reflect.String{
 				return
 			}
+			mapkeys := reflectv.MapKeys()
 			v.Reset(VT_Object)
 			cache := v.ValueCache()
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
 					if rvalue.IsNil(){
@@ -694,19 +687,12 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				}
 			}
 		case reflect.Map:
-			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if reflectv.Type().Key().Kind() != reflect.String{
 				return
 			}
+			mapkeys := reflectv.MapKeys()
 			newv := v.SetKeyCached(Name,VT_Object,cache)
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
 					if rvalue.IsNil(){
@@ -949,19 +935,12 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				}
 			}
 		case reflect.Map:
-			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if reflectv.Type().Key().Kind() != reflect.String{
 				return
 			}
+			mapkeys := reflectv.MapKeys()
 			newv := v.SetIndexCached(idx,VT_Object,cache)
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
 					if rvalue.IsNil(){
-- 
2.43.0


From 02a3b9935ab60513ab54b23dbaaa0dcdd22461ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 42/48] fix: ToStdValue fills the elements of a slice
 destination, so nested arrays are no longer lists of nil

---
 reflect_parse.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 04da407..44db491 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -1074,45 +1074,45 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		if v.DataType != VT_Array{
 			return false
 		}
-		v.Visit(func(Key string, arrvalue *DxValue) bool {
+		for i := 0;i < len(value) && i < len(v.farr);i++{
+			arrvalue := v.farr[i]
 			switch arrvalue.DataType {
 			case VT_Object:
 				newvalue := make(map[string]interface{},arrvalue.Count())
 				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
+				value[i] = newvalue
 			case VT_Array:
 				newvalue := make([]interface{},arrvalue.Count())
 				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
+				value[i] = newvalue
 			case VT_String,VT_RawString:
-				value = append(value,arrvalue.String())
+				value[i] = arrvalue.String()
 			case VT_Int:
-				value = append(value,arrvalue.Int())
+				value[i] = arrvalue.Int()
 			case VT_DateTime:
-				value = append(value,arrvalue.GoTime())
+				value[i] = arrvalue.GoTime()
 			case VT_Double:
-				value = append(value,arrvalue.Double())
+				value[i] = arrvalue.Double()
 			case VT_Float:
-				value = append(value,arrvalue.Float())
+				value[i] = arrvalue.Float()
 			case VT_Binary,VT_ExBinary:
-				value = append(value,arrvalue.Binary())
+				value[i] = arrvalue.Binary()
 			case VT_True:
-				value = append(value,true)
+				value[i] = true
 			case VT_False:
-				value = append(value,false)
+				value[i] = false
 			case VT_NULL:
-				value = append(value,nil)
+				value[i] = nil
 			}
-			return true
-		})
+		}
 	case []string:
 		if v.DataType != VT_Array{
 			return false
 		}
-		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			value = append(value,arrvalue.String())
-			return true
-		})
+		for i := 0;i < len(value) && i < len(v.farr);i++{
+			arrvalue := v.farr[i]
+			value[i] = arrvalue.String()
+		}
 	default:
 		reflectv := reflect.ValueOf(destv)
 		if !reflectv.IsValid(){
-- 
2.43.0


From 6f6b7dfb0b6e1f60926df2e85dca80fbe254a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:38 +0000
Subject: [PATCH 43/48] fix: ToStdValue restores slices of any length, byte
 slices and times in slices, and skips unexported fields

---
 reflect_parse.go | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 44db491..77c3a90 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -14,6 +14,9 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 			fld := valueType.Field(i)
 			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
 				childreflectv := fvalue.Field(i)
+				if !childreflectv.CanSet(){
+					continue
+				}
 				tp := fld.Type
 				if tp.Implements(ValueUnMarshalerType){
 					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
@@ -64,25 +67,19 @@ func growSliceValue(v reflect.Value, n int) reflect.Value {
 }
 
 func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase bool)bool  {
+	vtype := sliceValue.Type().Elem()
+	if vtype.Kind() == reflect.Uint8 && (arrvalue.DataType == VT_Binary || arrvalue.DataType == VT_ExBinary){
+		sliceValue.SetBytes(append([]byte{},arrvalue.Binary()...))
+		return true
+	}
 	if arrvalue.DataType != VT_Array{
 		return false
 	}
 	n := arrvalue.Count()
-	if n == 0{
-		return false
-	}
-	var vtype reflect.Type
-	if sliceValue.Cap() == 0{
-		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
-		sliceValue.Set(vslice.Slice(0, n))
-	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
+	if sliceValue.Cap() < n{
+		sliceValue.Set(reflect.MakeSlice(sliceValue.Type(), n, n))
+	}else{
 		sliceValue.Set(sliceValue.Slice(0, n))
-	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
-		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
 
 	if vtype.Implements(ValueUnMarshalerType){
@@ -91,7 +88,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+			sliceValue.Index(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
 		}
 		return true
 	}
@@ -105,7 +102,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 				if i >= sliceValue.Len() {
 					sliceValue.Set(growSliceValue(sliceValue, n))
 				}
-				convertHandler(sliceValue.Field(i),arrNode)
+				convertHandler(sliceValue.Index(i),arrNode)
 			}
 			return true
 		}
@@ -117,7 +114,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
+			sliceValue.Index(i).Set(reflect.ValueOf(arrNode.GoTime()))
 		}
 		return true
 	}
@@ -1128,15 +1125,15 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		reflectv = reflectv.Elem()
 		valueType := reflectv.Type()
 
-		if v.DataType != VT_Object{
-			return false
-		}
-		//反射处理,只处理结构体
+		//反射处理,只处理结构体和切片
 		switch valueType.Kind() {
 		case reflect.Struct:
+			if v.DataType != VT_Object{
+				return false
+			}
 			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
 		case reflect.Slice:
-			decodeArray2reflect(reflectv,v,ignoreCase)
+			return decodeArray2reflect(reflectv,v,ignoreCase)
 		default:
 			return false
 		}
-- 
2.43.0


From bdedd9d30a8051127fc6d01524d32294888ce935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 44/48] fix: SetInt, SetString, Clear and FreeValue leave the
 shared constants alone

---
 cache.go   | 2 +-
 dxvalue.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index bc456b3..0b8a29d 100644
--- a/cache.go
+++ b/cache.go
@@ -62,7 +62,7 @@ func (c *ValueCache)Reset(toRoot bool)  {
 
 //释放Value回收ValueCache
 func FreeValue(v *DxValue)  {
-	if v == nil{
+	if v == nil || v.ReadOnly(){
 		return
 	}
 	v.Clear()
diff --git a/dxvalue.go b/dxvalue.go
index 5ff4127..9f086a8 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -192,6 +192,9 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
@@ -736,6 +739,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -850,6 +856,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
-- 
2.43.0


From 91df42aae339cda455f874a874708e66791bfae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 45/48] fix: AddFrom leaves the shared constants alone

---
 dxvalue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 9f086a8..dcaf859 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -607,6 +607,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
-- 
2.43.0


From 12d8f013b68e206b6d2e377204c5cf7fc2dc1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:32 +0000
Subject: [PATCH 46/48] fix: a time is stored as the instant it denotes,
 whatever its location

---
 dxvalue.go       | 2 +-
 reflect_parse.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index dcaf859..f559f08 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1052,7 +1052,7 @@ func (v *DxValue)SetTime(value time.Time)  {
 	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
-	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value))
+	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value.Local()))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
diff --git a/reflect_parse.go b/reflect_parse.go
index 77c3a90..b66aa29 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -549,9 +549,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			v.SetKeyValue(Name,valueFalse)
 		}
 	case time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case *time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case float32:
 		v.SetKeyCached(Name,VT_Float,cache).SetFloat(realv)
 	case *float32:
@@ -803,9 +803,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			v.SetIndexValue(idx,valueFalse)
 		}
 	case time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case *time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case float32:
 		v.SetIndexCached(idx,VT_Float,cache).SetFloat(realv)
 	case *float32:
-- 
2.43.0


From 7e736da839a04f5a24b232e399f7935f5e5a39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 47/48] fix: times are rounded to the millisecond when read, so
 that whole seconds are not shown as the second before

---
 dxvalue.go   | 9 +++++++--
 jsonparse.go | 8 ++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index f559f08..2bff64a 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -767,7 +767,7 @@ func (v *DxValue)String()string  {
 		return strconv.FormatFloat(float64(vf),'f',-1,64)
 	case VT_DateTime:
 		dt := *((*DxCommonLib.TDateTime)(unsafe.Pointer(&v.simpleV[0])))
-		return dt.ToTime().Format("2006-01-02 15:04:05")
+		return delphi2Time(dt).Format("2006-01-02 15:04:05")
 	case VT_String:
 		return v.fstrvalue
 	case VT_NULL:
@@ -1019,10 +1019,15 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 	return -1
 }
 
+//ToTime会截掉不足1毫秒的部分,先加上半毫秒,否则整秒的时间取出来可能少1毫秒,显示时就会少1秒
+func delphi2Time(t DxCommonLib.TDateTime)time.Time  {
+	return (t + 0.5 / 86400000).ToTime()
+}
+
 func (v *DxValue)GoTime()time.Time  {
 	switch v.DataType {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
-		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
+		return delphi2Time((DxCommonLib.TDateTime)(v.Double()))
 	case VT_String,VT_RawString:
 		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
diff --git a/jsonparse.go b/jsonparse.go
index c9afb65..1cd53bd 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -860,12 +860,12 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	case VT_DateTime:
 		if escapeDatetime{
 			dst = append(dst,"\"/Date("...)
-			unixs := int64(v.DateTime().ToTime().Unix()*1000)
+			unixs := int64(delphi2Time(v.DateTime()).Unix()*1000)
 			dst = strconv.AppendInt(dst,unixs,10)
 			dst = append(dst,")/\""...)
 		}else{
 			dst = append(dst,'"')
-			dst = append(dst,v.DateTime().ToTime().Format("2006-01-02 15:04:05")...)
+			dst = append(dst,delphi2Time(v.DateTime()).Format("2006-01-02 15:04:05")...)
 			dst = append(dst,'"')
 		}
 
@@ -975,12 +975,12 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	case VT_DateTime:
 		if escapeDatetime{
 			dst = append(dst,"\"/Date("...)
-			unixs := int64(v.DateTime().ToTime().Unix()*1000)
+			unixs := int64(delphi2Time(v.DateTime()).Unix()*1000)
 			dst = strconv.AppendInt(dst,unixs,10)
 			dst = append(dst,")/\""...)
 		}else{
 			dst = append(dst,'"')
-			dst = append(dst,v.DateTime().ToTime().Format("2006-01-02 15:04:05")...)
+			dst = append(dst,delphi2Time(v.DateTime()).Format("2006-01-02 15:04:05")...)
 			dst = append(dst,'"')
 		}
 
-- 
2.43.0


From d892849a5432d775c257a60d018cebc5df987558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 48/48] fix: give the shared constants no members or elements

Setting a member or element on a shared null, true, false, NaN or infinity
value stored it in the shared constant, where the next caller that did the
same to any other tree's constant got hold of it.
---
 dxvalue.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 2bff64a..92f3488 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1192,6 +1192,9 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 			return v.SetIndex(int(idx),tp)
 		}
 	}
+	if v.ReadOnly(){ //共享的常量值不能有子节点
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Object{
 		v.Reset(VT_Object)
 	}
@@ -1219,6 +1222,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1240,6 +1246,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1277,6 +1286,9 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1303,6 +1315,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0

