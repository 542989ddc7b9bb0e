From d8ee072a3ed8ada3d305f7d91adfd9116c3e4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 01/60] fix: read back and release the user presets of a
 fixture type

OnPrintToFile writes every preset below FTPresets, but OnReadFromNode ignored
that node, so presets were lost on load; the destructor leaked them.
---
 src/GDTFManager.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..6ed8cd8 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9393,6 +9393,7 @@ GdtfFixture::~GdtfFixture()
 	for (GdtfModel* obj					: fModels)			{ delete obj; }	
 	for (GdtfDmxModePtr obj				: fDmxModes)		{ delete obj; }
 	for (GdtfRevisionPtr obj			: fRevisions)		{ delete obj; }
+	for (GdtfUserPresetPtr obj			: fPresets)			{ delete obj; }
 
     // Delete Local Files
 	for (size_t i = 0; i < fLocalFiles.size(); i++)
@@ -9812,7 +9813,20 @@ void GdtfFixture::OnReadFromNode(const IXMLFileNodePtr& pNode)
 
 	// ------------------------------------------------------------------------------------
 	// Read presets
-    // -
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodePresets, XML_GDTF_UserPresetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfUserPresetPtr preset = new GdtfUserPreset();
+									 
+									 // Read from node
+									 preset->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fPresets.push_back(preset);
+									
+									 return;
+								 });
 	
 	// ------------------------------------------------------------------------------------
 	// Read macros
-- 
2.43.0


From 7fde110811facba2e3592c6b070f601c6038e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 02/60] fix: accept the display attributes the library itself
 writes

GdtfGeometryDisplay writes and reads Width, Height and IsCurved, but its
attribute check reported them as wrong attributes on every loaded display.
---
 src/GDTFManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6ed8cd8..4792e50 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -3037,6 +3037,9 @@ void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
 	optional.push_back(XML_GDTF_GeometryModelRef);
 	needed.push_back(XML_GDTF_GeometryMatrix);
 	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
 
 	//------------------------------------------------------------------------------------
 	// Check Attributes for node
-- 
2.43.0


From 18c141792fbc44544ab655868f86101d3e6fb342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 03/60] fix: resolve the main attribute of an attribute that
 names no feature

---
 src/GDTFManager.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 4792e50..37160c6 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8703,24 +8703,25 @@ void GdtfFixture::ResolveAttribRefs()
 		// Attributes.Feature
 		GdtfFeaturePtr featPtr = nullptr;
 		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if(unresolvedFeat.IsEmpty()) { continue; }
-
-		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-		{	
-			if(CheckAbort()) { return; }
-			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-			{				
-				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-			}
-		}
-		ASSERTN(kEveryone, featPtr != nullptr);
-		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-		else
+		if( ! unresolvedFeat.IsEmpty())
 		{
-			IXMLFileNodePtr node;
-			attr->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-			SceneData::GdtfFixture::AddError(error);
+			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+			{	
+				if(CheckAbort()) { return; }
+				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+				{				
+					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+				}
+			}
+			ASSERTN(kEveryone, featPtr != nullptr);
+			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
 		}
 		
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From dccfa013973df464d534f55063a0dad8a360ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 04/60] fix: detect duplicate channels the same way in small
 and large DMX modes

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 37160c6..ea7dee3 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9125,7 +9125,7 @@ void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unor
 			bool isDummyAttribute = attributeName.EqualNoCase("Dummy");
 			
 			bool alreadyExists = false;
-			if (!isNoFeatureAttribute && !isDummyAttribute)
+			if (!isNoFeatureAttribute && !isDummyAttribute && geoRef)
 			{
 				if (seenGeoAttrPairs)
 				{
@@ -9141,7 +9141,7 @@ void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unor
 					for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
 					{
 						GdtfGeometryPtr currentGeometry = channel->GetGeomRef();
-						if(currentGeometry == nullptr) { break; }
+						if(currentGeometry == nullptr) { continue; }
 						TXString currentGeometryName = currentGeometry->GetName();
 						for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
 						{
-- 
2.43.0


From 05256c15cfcc9a0152e3d38b07234663ade5fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 05/60] fix: hash TXString without regard to case, as it
 compares

---
 src/GSString.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GSString.h b/src/GSString.h
index f053aa2..2fef2b1 100644
--- a/src/GSString.h
+++ b/src/GSString.h
@@ -583,7 +583,10 @@ struct hash<VectorworksMVR::TXString>
 {
     std::size_t operator()(const VectorworksMVR::TXString& s) const
     {
-        return s.hash();
+        // TXString compares case insensitive, so equal strings need the same hash
+        VectorworksMVR::TXString lower = s;
+        lower.MakeLower();
+        return lower.hash();
     }
 };
 }
\ No newline at end of file
-- 
2.43.0


From 28d6c6579024a07c323621873302ef3a24855773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 06/60] fix: resolve symbols nested in symbol definitions once,
 whether or not the scene has objects

---
 src/SceneDataExchange.cpp | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..83577aa 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3988,28 +3988,6 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			
 		}
 
-        //-----------------------------------------------------------------------------
-        // Resolve Symbols in Symbols
-        TSymDefMap::iterator it = fSymDefMap.begin();
-        while(it != fSymDefMap.end())
-        {
-            SceneDataSymDefObjPtr symDef = it->second;
-
-            for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
-            {
-                if (geoObj->IsSymDef())
-                {
-				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				    ASSERTN(kEveryone, ptr);
-				    if(ptr) { symObj->SetSymDef(ptr); }
-                }
-            }
-
-            it++;
-        }
-
 		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
 		{
 			if(geoObj->IsSymDef())
@@ -4023,6 +4001,28 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 		}
 		
 	}
+
+    //-----------------------------------------------------------------------------
+    // Resolve Symbols in Symbols
+    TSymDefMap::iterator it = fSymDefMap.begin();
+    while(it != fSymDefMap.end())
+    {
+        SceneDataSymDefObjPtr symDef = it->second;
+
+        for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
+        {
+            if (geoObj->IsSymDef())
+            {
+			    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
+			    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
+			
+			    ASSERTN(kEveryone, ptr);
+			    if(ptr) { symObj->SetSymDef(ptr); }
+            }
+        }
+
+        it++;
+    }
 	
 }
 
-- 
2.43.0


From 6b704c257742d1c6918cb51721c8b80649496607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 07/60] fix: do not add an entry for a missing symbol
 definition while walking the definitions

---
 src/SceneDataExchange.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 83577aa..f09ccdf 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3993,7 +3993,8 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			if(geoObj->IsSymDef())
 			{
 				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
+				TSymDefMap::iterator  found  = fSymDefMap.find(symObj->GetUnresolvedSymDef());
+				SceneDataSymDefObjPtr ptr    = (found != fSymDefMap.end()) ? found->second : nullptr;
 				
 				ASSERTN(kEveryone, ptr);
 				if(ptr) { symObj->SetSymDef(ptr); }
@@ -4014,7 +4015,8 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
             if (geoObj->IsSymDef())
             {
 			    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-			    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
+			    TSymDefMap::iterator  found  = fSymDefMap.find(symObj->GetUnresolvedSymDef());
+			    SceneDataSymDefObjPtr ptr    = (found != fSymDefMap.end()) ? found->second : nullptr;
 			
 			    ASSERTN(kEveryone, ptr);
 			    if(ptr) { symObj->SetSymDef(ptr); }
-- 
2.43.0


From a43bcb210d342752106a07692828feb611ebe23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 08/60] fix: walk a copy of the attributes while references may
 append one

---
 src/GDTFManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index ea7dee3..8c29d9c 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8674,7 +8674,9 @@ void GdtfFixture::ResolveWheelSlots()
 
 void GdtfFixture::ResolveAttribRefs()
 {
-	for (GdtfAttributePtr attr : fAttributes)
+	// Looking up a main attribute may append the NoFeature attribute, so walk a copy of the list
+	const TGdtfAttributeArray attributes = fAttributes;
+	for (GdtfAttributePtr attr : attributes)
 	{
 		if (CheckAbort()) { return; }
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From 2680dfa3eba3b3f8ca46d2480c3f88e3c9f4b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 09/60] fix: resolve the class of a scene object regardless of
 the case of its uuid

The layers, positions and symbol definitions compare uuids case insensitively;
the class reference alone was lost when a file spells uuids in lower case.
---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f09ccdf..4429dbf 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3975,7 +3975,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataClassObjPtr classObj : fClasses)
 			{
-				if (classUuid.Equal( classObj->getGuid().GetUUIDString() ))
+				if (classUuid == classObj->getGuid().GetUUIDString())
 				{
 					scObj->SetClass(classObj);
 					match = true;
-- 
2.43.0


From 1251261311b9761c0ea7c3e41185ce09c11f4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 10/60] fix: find the multipatch parent of a scene object
 wherever it stands in the file

The parent was looked up while the object was read, so a parent that follows
its child in the file was lost. Resolve it after all objects are read.
---
 src/SceneDataExchange.cpp | 21 ++++++++++++---------
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 4429dbf..edac564 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -246,6 +246,11 @@ SceneDataObj* SceneDataObj::getMultipatchParent() const
 	return fMultipatchObj;
 }
 
+const TXString& SceneDataObj::GetUnresolvedMultipatch() const
+{
+	return fUnresolvedMultipatch;
+}
+
 void SceneDataObj::PrintToFile(IXMLFileNodePtr pContainerNode, SceneDataExchange* exchange)
 {
     // Create the new node
@@ -304,15 +309,8 @@ void SceneDataObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneDataExchang
 	pNode->GetNodeAttributeValue(XML_Val_NameAttrName, name);
 	this->setName(name);
 
-	TXString multipatch;
-	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, multipatch );
-
-	if ( !multipatch.IsEmpty() )
-	{	
-		SceneDataGUID uuid( multipatch );
-		const auto& multipatchObj = exchange->GetSceneObjByUUID(uuid);
-		this->setMultipatchParent(multipatchObj);
-	}
+	// The parent may follow later in the file, it is resolved when all objects are read
+	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, fUnresolvedMultipatch );
 }
 
 // ----------------------------------------------------------------------------------------------------------------------------------
@@ -3988,6 +3986,11 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			
 		}
 
+		if (scObj->GetUnresolvedMultipatch().IsEmpty() == false)
+		{
+			scObj->setMultipatchParent(GetSceneObjByUUID(SceneDataGUID(scObj->GetUnresolvedMultipatch())));
+		}
+
 		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
 		{
 			if(geoObj->IsSymDef())
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index afbacc2..a4a9949 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -111,6 +111,7 @@ namespace SceneData
 		SceneDataGUID					fGuid;
 		TXString						fName;
 		SceneDataObj*					fMultipatchObj = nullptr;
+		TXString						fUnresolvedMultipatch;
     
 	public:   
 		SceneDataGUID&					getGuid();
@@ -119,6 +120,7 @@ namespace SceneData
     
 		void							setMultipatchParent( SceneDataObj* value );
 		SceneDataObj*				    getMultipatchParent() const;
+		const TXString&					GetUnresolvedMultipatch() const;
     
 		// Write    
 		virtual void					PrintToFile(IXMLFileNodePtr pContainerNode, SceneDataExchange* exchange);
-- 
2.43.0


From a740a4040b71d28abe53f58bf711d5e99a7af88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 11/60] fix: write the classes of a scene, so that they are
 still there when it is read back

---
 src/SceneDataExchange.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index edac564..9c001e0 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3659,6 +3659,11 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 						position->PrintToFile( pAuxDataNode, this );
 					}
 
+					for ( const auto& classObj : fClasses )
+					{
+						classObj->PrintToFile( pAuxDataNode, this );
+					}
+
 					for ( const auto& symDef : fSymDefObjs )
 					{
 						symDef->PrintToFile( pAuxDataNode, this );
-- 
2.43.0


From f33566f5c7aec648335b4ea4c3a37e963ff693a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 12/60] fix: CGdtfConnectorImpl::SetType stores the connector
 type instead of overwriting the name

---
 src/Implementation/CGdtfConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfConnector.cpp b/src/Implementation/CGdtfConnector.cpp
index 69ae7d0..9ea1a32 100644
--- a/src/Implementation/CGdtfConnector.cpp
+++ b/src/Implementation/CGdtfConnector.cpp
@@ -82,7 +82,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfConnectorImpl::SetType(MvrString
 	// Check if valid
 	if(!fConnector) return kVCOMError_NotInitialized;
 
-    fConnector->SetName(type);
+    fConnector->SetType(type);
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From 8e7f642e674e82a6efcd2e5ca5641cbfc59df7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 13/60] fix: CGdtfGeometryImpl::SetModel sets the model of the
 geometry instead of overwriting the passed pointer

---
 src/Implementation/CGdtfGeometry.cpp | 53 +++++++---------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 75bac24..a79a085 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -520,46 +520,19 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetName(MvrString n
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetModel(IGdtfModel ** model)
 {
-    // Check Data	
-    if( ! fGeometry) return kVCOMError_NotInitialized;
-    
-	//---------------------------------------------------------------------------
-	// Initialize Object
-	SceneData::GdtfModel*	gdtfModel = fGeometry->GetModelRef();
-	if ( ! gdtfModel)	{ return kVCOMError_NotSet; }
-	
-    CGdtfModelImpl*			pModelObj = nullptr;
-    
-    // Query Interface
-    if (VCOM_SUCCEEDED(VWQueryInterface(IID_GdtfModel, (IVWUnknown**) & pModelObj)))
-    {
-        // Check Casting
-        CGdtfModelImpl* pResultInterface = static_cast<CGdtfModelImpl* >(pModelObj);
-        if (pResultInterface)
-        {
-            pResultInterface->SetPointer(gdtfModel);
-        }
-        else
-        {
-            pResultInterface->Release();
-            pResultInterface = nullptr;
-            return kVCOMError_NoInterface;
-        }
-    }
-    
-    //---------------------------------------------------------------------------
-    // Check Incoming Object
-    if (*model)
-    {
-        (*model)->Release();
-        *model		= NULL;
-    }
-    
-    //---------------------------------------------------------------------------
-    // Set Out Value
-    *model	= pModelObj;
-    
-    return kVCOMError_NoError;   
+    // Check Data
+    if ( ! fGeometry)           { return kVCOMError_NotInitialized; }
+    if ( ! model || ! *model)   { return kVCOMError_InvalidArg; }
+
+    // Cast
+    CGdtfModelImpl* pModelImpl = static_cast<CGdtfModelImpl*>(*model);
+
+    SceneData::GdtfModelPtr gdtfModel = pModelImpl->GetPointer();
+    if ( ! gdtfModel)           { return kVCOMError_Failed; }
+
+    fGeometry->SetModel(gdtfModel);
+
+    return kVCOMError_NoError;
 }
     
 
-- 
2.43.0


From fc891b61763f7410d77108d39ba84f43f9186da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 14/60] fix: IGdtfCRI::GetColorSample returns the color sample
 instead of writing to its own copy of the argument

---
 src/Implementation/CGdtfCRI.cpp              | 2 +-
 src/Implementation/CGdtfCRI.h                | 2 +-
 src/Include/IMediaRessourceVectorInterface.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Implementation/CGdtfCRI.cpp b/src/Implementation/CGdtfCRI.cpp
index d7fb0e9..9c8a2ee 100644
--- a/src/Implementation/CGdtfCRI.cpp
+++ b/src/Implementation/CGdtfCRI.cpp
@@ -12,7 +12,7 @@ VectorworksMVR::CGdtfCRIImpl::~CGdtfCRIImpl()
 {
 }
 
-VectorworksMVR::VCOMError  VectorworksMVR::CGdtfCRIImpl::GetColorSample(EGdtfColorSample outVal)
+VectorworksMVR::VCOMError  VectorworksMVR::CGdtfCRIImpl::GetColorSample(EGdtfColorSample& outVal)
 {
     // Check Data
     if (!fCRI) return kVCOMError_NotInitialized;
diff --git a/src/Implementation/CGdtfCRI.h b/src/Implementation/CGdtfCRI.h
index 13b0568..a4b3558 100644
--- a/src/Implementation/CGdtfCRI.h
+++ b/src/Implementation/CGdtfCRI.h
@@ -14,7 +14,7 @@ namespace VectorworksMVR
         virtual ~CGdtfCRIImpl();
         
         // Getter
-        virtual VCOMError VCOM_CALLTYPE     GetColorSample(EGdtfColorSample outVal);
+        virtual VCOMError VCOM_CALLTYPE     GetColorSample(EGdtfColorSample& outVal);
         virtual VCOMError VCOM_CALLTYPE     GetColorRenderingIndex(Uint8& outVal);
         // Setter
         virtual VCOMError VCOM_CALLTYPE     SetColorSample(EGdtfColorSample val);
diff --git a/src/Include/IMediaRessourceVectorInterface.h b/src/Include/IMediaRessourceVectorInterface.h
index 9a17277..223d4c5 100644
--- a/src/Include/IMediaRessourceVectorInterface.h
+++ b/src/Include/IMediaRessourceVectorInterface.h
@@ -1487,7 +1487,7 @@ class DYNAMIC_ATTRIBUTE IGdtfMacro : public IVWUnknown
     {
     public:
         // Getter
-        virtual VCOMError VCOM_CALLTYPE GetColorSample(GdtfDefines::EGdtfColorSample outVal) = 0;
+        virtual VCOMError VCOM_CALLTYPE GetColorSample(GdtfDefines::EGdtfColorSample& outVal) = 0;
         virtual VCOMError VCOM_CALLTYPE GetColorRenderingIndex(Uint8& outVal) = 0;
         // Setter
         virtual VCOMError VCOM_CALLTYPE SetColorSample(GdtfDefines::EGdtfColorSample val) = 0;
-- 
2.43.0


From 59086e3f216ccaba34ca656952eff00653f229e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 15/60] fix: ISceneObj::GetProtocolAt returns the protocol to
 the caller, with texts that outlive the call

---
 src/Implementation/CSceneObjImpl.cpp | 4 ++--
 src/SceneDataExchange.cpp            | 8 ++++----
 src/SceneDataExchange.h              | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..bfb0f3d 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1040,7 +1040,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
 	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
 	pProtocol->fName = protocol.GetName().GetCharPtr();
@@ -1048,7 +1048,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
 	pProtocol->fType = protocol.GetType().GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 9c001e0..2dbcd13 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1860,22 +1860,22 @@ SceneDataProtocols::SceneDataProtocols( const TXString& geometry, const TXString
 	fTransmision	= transmision;
 }
 
-TXString SceneDataProtocols::GetGeometry() const
+const TXString& SceneDataProtocols::GetGeometry() const
 {
 	return fGeometry;
 }
 
-TXString SceneDataProtocols::GetName() const
+const TXString& SceneDataProtocols::GetName() const
 {
 	return fName;
 }
 
-TXString SceneDataProtocols::GetType() const
+const TXString& SceneDataProtocols::GetType() const
 {
 	return fType;
 }
 
-TXString SceneDataProtocols::GetVersion() const
+const TXString& SceneDataProtocols::GetVersion() const
 {
 	return fVersion;
 }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index a4a9949..4f116fe 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -742,10 +742,10 @@ namespace SceneData
 
 											SceneDataProtocols( const TXString& geometry, const TXString& name, const TXString& type, const TXString& version, const ETransmissionType& transmision );
 
-		TXString							GetGeometry() const;
-		TXString							GetName() const;
-		TXString							GetType() const;
-		TXString							GetVersion() const;
+		const TXString&						GetGeometry() const;
+		const TXString&						GetName() const;
+		const TXString&						GetType() const;
+		const TXString&						GetVersion() const;
 		ETransmissionType					GetTransmission() const;
 	};
 	typedef std::vector<SceneDataProtocols>	SceneDataProtocolsArray;
-- 
2.43.0


From 09b7dc0fd116fc7594dc00f733afcbe4d60c0fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 16/60] fix: GdtfModel::GetBuffer3DS/GetBufferSVG copy the
 buffer when there is one, not when there is none

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 8c29d9c..6c1df1d 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1989,7 +1989,7 @@ EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
 
 void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 {
-	if(fBuffer3DS)
+	if(!fBuffer3DS)
 	{
 		return;
 	}
@@ -2005,7 +2005,7 @@ void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 
 void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
 {
-	if(fBufferSVG)
+	if(!fBufferSVG)
 	{
 		return;
 	}
-- 
2.43.0


From 4d5d94d03f046c4d6088dd10b529d2731e931e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 17/60] fix: API methods of objects without a model object
 return an error instead of dereferencing null

---
 src/Implementation/CGdtfDmxMode.cpp              | 12 ++++++++++++
 src/Implementation/CGdtfGeometry.cpp             |  3 +++
 src/Implementation/CGdtfPinPatch.cpp             |  1 +
 src/Implementation/CGdtfSoftwareVersionID.cpp    |  1 +
 src/Implementation/CMediaRessourceVectorImpl.cpp |  1 +
 src/Implementation/CSceneObjImpl.cpp             |  9 +++++++++
 src/Implementation/CSymDefImpl.cpp               |  3 +++
 7 files changed, 30 insertions(+)

diff --git a/src/Implementation/CGdtfDmxMode.cpp b/src/Implementation/CGdtfDmxMode.cpp
index 4af9a64..738d9dd 100644
--- a/src/Implementation/CGdtfDmxMode.cpp
+++ b/src/Implementation/CGdtfDmxMode.cpp
@@ -281,6 +281,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetDmxRelationAt(siz
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::CreateDmxRelation(MvrString name, GdtfDefines::EGdtfDmxRelationType type, IGdtfDmxChannel* master, IGdtfDmxChannelFunction* slave, IGdtfDmxRelation** relation)
 {
+	// Check if this is initialized
+	if( ! fDmxMode) return kVCOMError_NotInitialized;
+
     // Check incomming values
     if ( ! master) { return kVCOMError_InvalidArg; }
     if ( ! slave)  { return kVCOMError_InvalidArg; }
@@ -409,6 +412,9 @@ VectorworksMVR::VCOMError VCOM_CALLTYPE VectorworksMVR::CGdtfDmxModeImpl::GetDmx
 
 VectorworksMVR::VCOMError VCOM_CALLTYPE VectorworksMVR::CGdtfDmxModeImpl::CreateDmxMacro(MvrString name, IGdtfMacro ** macro)
 {
+	// Check if this is initialized
+	if( ! fDmxMode) return kVCOMError_NotInitialized;
+
 	// Create the new Macro
 	TXString vwName(name);
 
@@ -464,6 +470,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetBreakCount(size_t
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetBreakAt(size_t at, size_t& breakId)
 {
+	// Check if this is initialized
+	if( ! fDmxMode) return kVCOMError_NotInitialized;
+
     if(at >= fDmxMode->GetBreakArray().size())
     {
         return kVCOMError_OutOfBounds;
@@ -476,6 +485,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetBreakAt(size_t at
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetFootprintForBreak(size_t inBreak, size_t& footprint)
 {
+	// Check if this is initialized
+	if( ! fDmxMode) return kVCOMError_NotInitialized;
+
     footprint = fDmxMode->GetFootPrintForBreak(inBreak);
     return kVCOMError_NoError;
 }
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index a79a085..d581825 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -1051,6 +1051,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetCountLinkedDmxCh
 
 	// Get Array
 	SceneData::GdtfDmxModePtr 		scMode 	 = modeInterface->getPointer();
+	if( ! scMode) { return kVCOMError_InvalidArg; }
 	SceneData::TGdtfDmxChannelArray channels = scMode->GetChannelsForGeometry(fGeometry);
 
 	count = channels.size();
@@ -1067,6 +1068,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLinkedDmxChannel
 
 	// Get Array
 	SceneData::GdtfDmxModePtr 		scMode 	 = modeInterface->getPointer();
+	if( ! scMode) { return kVCOMError_InvalidArg; }
 	SceneData::TGdtfDmxChannelArray channels = scMode->GetChannelsForGeometry(fGeometry);
 
 	// Check Bound
@@ -2164,6 +2166,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::CreatePinPatch(Vect
 	if ( ! toWiringObjectImpl)	{ return kVCOMError_InvalidArg; }
 
 	SceneData::GdtfGeometryPtr gdtfGeometry = toWiringObjectImpl->GetPointer();
+	if ( ! gdtfGeometry) { return kVCOMError_InvalidArg; }
 
 	if ( gdtfGeometry->GetObjectType() != EGdtfObjectType::eGdtfGeometryWiringObject) { return kVCOMError_InvalidArg; }
 
diff --git a/src/Implementation/CGdtfPinPatch.cpp b/src/Implementation/CGdtfPinPatch.cpp
index b1b4808..1dbc1f7 100644
--- a/src/Implementation/CGdtfPinPatch.cpp
+++ b/src/Implementation/CGdtfPinPatch.cpp
@@ -93,6 +93,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfPinPatchImpl::SetLinkedWiringObje
 	if ( ! toWiringObjectImpl)	{ return kVCOMError_InvalidArg; }
 
 	SceneData::GdtfGeometryPtr gdtfGeometry = toWiringObjectImpl->GetPointer();
+	if ( ! gdtfGeometry) { return kVCOMError_InvalidArg; }
 
 	if ( gdtfGeometry->GetObjectType() != EGdtfObjectType::eGdtfGeometryWiringObject) { return kVCOMError_InvalidArg; }
 
diff --git a/src/Implementation/CGdtfSoftwareVersionID.cpp b/src/Implementation/CGdtfSoftwareVersionID.cpp
index 7d52d3a..45cd827 100644
--- a/src/Implementation/CGdtfSoftwareVersionID.cpp
+++ b/src/Implementation/CGdtfSoftwareVersionID.cpp
@@ -101,6 +101,7 @@ VCOMError VCOM_CALLTYPE CGdtfSoftwareVersionIDImpl::CreateDMXPersonality(size_t
 {
     // Check if Set
     if (!fSoftwareVersionID) { return kVCOMError_NotInitialized; }
+    if (!dmxMode)            { return kVCOMError_InvalidArg; }
 
 
     CGdtfDmxModeImpl* mode = static_cast<CGdtfDmxModeImpl*>(dmxMode);
diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 7fa782e..f1d5903 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -1439,6 +1439,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::GetNextObje
 	ESceneObjType							objType;
 	
 	pContainer->GetPointer(scObject, objType);
+	if ( ! scObject) { return kVCOMError_NoValidContainerObj; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index bfb0f3d..b67fe6b 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -60,6 +60,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGuid(MvrUUID& outGui
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::SetMultipatchParent( ISceneObj* multipatchObj )
 {
+	// Check if this is initialized
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	// ------------------------------------------------------------------------------------------
 	// Check the type is right
 	ASSERTN(kEveryone, fType == ESceneObjType::Layer || fType == ESceneObjType::Group);
@@ -236,6 +239,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGeometryAt(size_t at
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::AddGeometry(const STransformMatrix& scMatrix, MvrString fileName)
 {
+	// Check if this is initialized
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	//---------------------------------------------------------------------------
 	// Create the new object, and set the file name
 	SceneData::SceneDataGeometryObjPtr geometryObject = new SceneData::SceneDataGeometryObj();
@@ -1486,6 +1492,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionAt(size_t
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::CreateConnection(MvrString own, MvrString other, MvrUUID ToObject, IConnection** addedObj)
 {
+	// Check if this is initialized
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	const auto nObj = fPtr->AddConnectionObj(own, other, VWUUID(ToObject.a, ToObject.b, ToObject.c, ToObject.d));
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CSymDefImpl.cpp b/src/Implementation/CSymDefImpl.cpp
index 4d385db..0bda4dd 100644
--- a/src/Implementation/CSymDefImpl.cpp
+++ b/src/Implementation/CSymDefImpl.cpp
@@ -132,6 +132,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSymDefImpl::GetIsContaingSymbolGeomte
 
 VectorworksMVR::VCOMError VectorworksMVR::CSymDefImpl::AddGeometry(const STransformMatrix& scMatrix, MvrString fileName)
 {
+	// Check if this is initialized
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	//---------------------------------------------------------------------------
 	// Create the new object, and set the file name
 	SceneData::SceneDataGeometryObjPtr geometryObject = new SceneData::SceneDataGeometryObj();
-- 
2.43.0


From 3e13257df5b65762bf87b36dc790ae8f33b0ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 18/60] fix: index checks of Get...At reject an index equal to
 the number of elements

---
 src/Implementation/CGdtfAttribute.cpp | 2 +-
 src/Implementation/CGdtfGamut.cpp     | 2 +-
 src/Implementation/CGdtfGeometry.cpp  | 6 +++---
 src/Implementation/CSceneObjImpl.cpp  | 4 ++--
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Implementation/CGdtfAttribute.cpp b/src/Implementation/CGdtfAttribute.cpp
index c1a3ea9..28985ce 100644
--- a/src/Implementation/CGdtfAttribute.cpp
+++ b/src/Implementation/CGdtfAttribute.cpp
@@ -293,7 +293,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfAttributeImpl::GetSubPhysicalUnit
 	if ( ! fAttribute) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fAttribute->GetSubPhysicalUnitArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fAttribute->GetSubPhysicalUnitArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CGdtfGamut.cpp b/src/Implementation/CGdtfGamut.cpp
index b64e739..78b6bbb 100644
--- a/src/Implementation/CGdtfGamut.cpp
+++ b/src/Implementation/CGdtfGamut.cpp
@@ -53,7 +53,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGamutImpl::GetPointAt(size_t at,
 	if ( ! fGamut) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fGamut->GetGamutPoints().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fGamut->GetGamutPoints().size() <= at) { return kVCOMError_OutOfBounds; }
 
 	CCieColorPtr colorPtr = fGamut->GetGamutPoints()[at];
 
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index d581825..abec5c0 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -763,7 +763,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetBreakAt(size_t a
 	if ( ! ref) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (ref->GetBreakArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (ref->GetBreakArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -1485,7 +1485,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLaserProtocolAt(
 	if ( ! laser) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (laser->GetLaserProtocolArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (laser->GetLaserProtocolArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -2108,7 +2108,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetPinPatchAt(size_
 	if ( ! wiringObject) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (wiringObject->GetPinPatchArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (wiringObject->GetPinPatchArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index b67fe6b..553d235 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1040,7 +1040,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
@@ -1093,7 +1093,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetAdressAt(size_t at,
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 	
 	// Check the psotion of the array
-	if (at > fixture->GetAdressesArray().size())
+	if (at >= fixture->GetAdressesArray().size())
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1eb906f..d82ed55 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -177,7 +177,7 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 VCOMError VCOM_CALLTYPE VectorworksMVR::CMVRxchangeServiceImpl::GetLocalServiceAt(size_t index, ConnectToLocalServiceArgs& outLocalService)
 {
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
-	if ( fQueryLocalServicesResult.size() < index)
+	if ( fQueryLocalServicesResult.size() <= index)
 	{
 		return kVCOMError_Failed;
 	}
-- 
2.43.0


From 3b2ec9ad9e4d49d7f57ce08ca8f438d856eff963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 19/60] fix: GetAttachedFileCountAt does not index past the
 stored paths after a failed read

---
 src/Implementation/CMediaRessourceVectorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index f1d5903..06dbe2e 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -1501,7 +1501,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::GetAttached
 MvrString VectorworksMVR::CMediaRessourceVectorImpl::GetAttachedFileCountAt(size_t at)
 {
 	IFileIdentifierPtr file;
-	if(fExchangeObj.GetAttachedFileCountAt(at, file))
+	if(at < fullPathStorage.size() && fExchangeObj.GetAttachedFileCountAt(at, file))
 	{
 		file->GetFileFullPath(fullPathStorage[at]);
 		return fullPathStorage[at].GetCharPtr();
-- 
2.43.0


From 55789b033033305e79c78530c4590fd77b3b4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 20/60] fix: lock the session list of the MVR-xchange server
 while it is changed

---
 src/mvrxchange/mvrxchange_server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_server.cpp b/src/mvrxchange/mvrxchange_server.cpp
index 31f95fe..b0222de 100644
--- a/src/mvrxchange/mvrxchange_server.cpp
+++ b/src/mvrxchange/mvrxchange_server.cpp
@@ -59,13 +59,13 @@ void MVRxchangeServer::ExecutionFunction()
 
 void MVRxchangeServer::AddSession(const std::shared_ptr<MVRxchangeSession>& p) 
 {
-    std::unique_lock<std::mutex> mSession;
+    std::unique_lock<std::mutex> lock(mSession);
     fSession.insert(p);
 }
 
 void MVRxchangeServer::CloseSession(const std::shared_ptr<MVRxchangeSession>& p) 
 {
-    std::unique_lock<std::mutex> mSession;
+    std::unique_lock<std::mutex> lock(mSession);
     fSession.erase(p);
 }
 
-- 
2.43.0


From 3bef771ed881dbeed174cb5d749a985028e3938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 21/60] fix: QueryLocalServices waits until the query is done

---
 src/mvrxchange/CMVRxchangeService.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index d82ed55..38d3f10 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -155,11 +155,14 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 		std::condition_variable cv;
 		std::mutex mut;
 		std::unique_lock<std::mutex> lock(mut);
-		boost::asio::post(fmdns_IO_Context, [this, &cv](){
+		bool done = false;
+		boost::asio::post(fmdns_IO_Context, [this, &cv, &mut, &done](){
 			this->mDNS_Client_Task();
+			std::lock_guard<std::mutex> doneLock(mut);
+			done = true;
 			cv.notify_all();
 		});
-		cv.wait(lock);
+		cv.wait(lock, [&done](){ return done; });
 	}else{
 		this->mDNS_Client_Task();
 	}
-- 
2.43.0


From 4e9d88231b087e25f8c6b2013c04ccc37d9c04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 22/60] fix: remove the station that sent MVR_LEAVE from the
 group

---
 src/mvrxchange/CMVRxchangeService.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 38d3f10..22a773b 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -338,17 +338,13 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
-		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.LEAVE.FromStationUUID, newItem) != kVCOMError_NoError)
-		{
-			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			fMVRGroup.erase(
-				std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-					return it.stationUUID == newItem.stationUUID;
-				}),
-				fMVRGroup.end()
-			);
-		}
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.erase(
+			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&in](const MVRxchangeGroupMember& it){
+				return it.stationUUID == in.LEAVE.FromStationUUID;
+			}),
+			fMVRGroup.end()
+		);
 	}
 
 	IMVRxchangeService::IMVRxchangeMessage ret;
-- 
2.43.0


From ebc3f137b26a8dde278b0310d77513c76fa092e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 23/60] fix: read empty and unknown entries of an mDNS text
 record

---
 src/mvrxchange/CMVRxchangeService.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 22a773b..960c692 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -571,10 +571,11 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		TXString uuid;
 
 		size_t ptr = 0;
-		do{
+		while(ptr < r.txt.size()){
 			uint8_t len = r.txt[ptr];
 
 			std::string t = r.txt.substr(ptr + 1, len);
+			ptr += len + 1;
 			size_t eqIdx = t.find('=');
 			if(eqIdx == std::string::npos)
 			{
@@ -589,9 +590,7 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 			{
 				uuid = t.substr(eqIdx + 1);
 			}
-
-			ptr += len + 1;
-		}while(ptr < r.txt.size());
+		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
 		strcpy(localServ.StationName, name.GetCharPtr());
-- 
2.43.0


From d8fa44aee47e21276a7318ee4bdcccc136527cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 24/60] fix: cut texts received from the network to the length
 of their fields

---
 src/mvrxchange/CMVRxchangeService.cpp |  2 +-
 src/mvrxchange/mvrxchange_message.cpp | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 960c692..eec624a 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -593,7 +593,7 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
-		strcpy(localServ.StationName, name.GetCharPtr());
+		localServ.StationName = name.GetCharPtr();
 
 		#ifndef NDEBUG
 			std::string out;
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..aaa506d 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -167,11 +167,11 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
+    in.Comment = payload["Comment"].get<std::string>().c_str();
     in.VersionMajor= payload["verMajor"];
     in.VersionMinor= payload["verMinor"];
     in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.FileName = payload["FileName"].get<std::string>().c_str();
 
     SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
     SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
@@ -344,8 +344,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
@@ -360,12 +360,12 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
         for (auto &it : payload["Commits"])
@@ -383,7 +383,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
@@ -405,7 +405,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -423,7 +423,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From 9ce17f9a75d16457279282ae9f93b1165266fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 25/60] fix: refuse MVR-xchange messages with missing or
 wrongly typed fields

---
 src/mvrxchange/mvrxchange_message.cpp | 83 +++++++++++++--------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index aaa506d..167890e 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -167,18 +167,18 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    in.Comment = payload["Comment"].get<std::string>().c_str();
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    in.FileName = payload["FileName"].get<std::string>().c_str();
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor= payload.at("verMajor");
+    in.VersionMinor= payload.at("verMinor");
+    in.FileSize= payload.at("FileSize");
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -339,60 +339,60 @@ bool HandleStringBool(const nlohmann::json& item)
 void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload, VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage &in)
 {
     bool noUUIDError = true;
-    if (payload["Type"] == "MVR_JOIN")
+    if (payload.at("Type") == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_JOIN_RET")
+    else if (payload.at("Type") == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_COMMIT")
+    else if (payload.at("Type") == "MVR_COMMIT")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT;
         MVR_COMMIT_FromJson(payload, in.COMMIT);
     }
-    else if (payload["Type"] == "MVR_COMMIT_RET")
+    else if (payload.at("Type") == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_REQUEST")
+    else if (payload.at("Type") == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -401,29 +401,29 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
             }
         }
     }
-    else if (payload["Type"] == "MVR_REQUEST_RET")
+    else if (payload.at("Type") == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_LEAVE")
+    else if (payload.at("Type") == "MVR_LEAVE")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE;
         if ( payload.contains( "FromStationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FromStationUUID"].get<std::string>(), in.LEAVE.FromStationUUID);
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FromStationUUID").get<std::string>(), in.LEAVE.FromStationUUID);
         }
         else if ( payload.contains( "StationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload[ "StationUUID" ].get<std::string>(), in.LEAVE.FromStationUUID );
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
     }
-    else if (payload["Type"] == "MVR_LEAVE_RET")
+    else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
@@ -460,12 +460,11 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        MVRXCHANGE_LOG("received message of type: " << payload["Type"].get<std::string>());
-
         try
         {
             // Reset type
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
+            MVRXCHANGE_LOG("received message of type: " << payload["Type"].get<std::string>());
             Internal_ToExternalMessage(payload, in);
         }
         catch (const std::exception &e)
-- 
2.43.0


From 5058704c864293637cb0c15ebc734f953ed87000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 26/60] fix: MVRxchangeDynamicBuffer never reports more bytes
 than it owns

---
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index 71e8816..bef90df 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -131,23 +131,23 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 	// When we already have enought memory, just copy
 	if (fAllocatedMemory < needToAllocate)
 	{
-		// Calculate the new needed buffer
-		fAllocatedMemory = needToAllocate;
-
 		// Create new Buffer
-		char* tempBuffer = new char[fAllocatedMemory];
+		char* tempBuffer = new char[needToAllocate];
 		if(fBuffer)
 		{
 			memcpy(tempBuffer, fBuffer, fBufferSize);
 			delete[] fBuffer;
 		}
 
-		// Set the new Buffer size
-		fBufferSize = fBufferSize + (size_t)size;
-
 		// Set the new Buffer
-		fBuffer = tempBuffer;
+		fBuffer          = tempBuffer;
+		fAllocatedMemory = needToAllocate;
+	}
 
+	// Set the new Buffer size
+	if (fBufferSize < size)
+	{
+		fBufferSize = size;
 	}
 
 }
@@ -169,11 +169,8 @@ void MVRxchangeDynamicBuffer::Reserve(size_t size)
         {
             memcpy(tempBuffer, fBuffer, fBufferSize);
             delete[] fBuffer;
-            fBufferSize = fBufferSize + (size_t)size;
         }
 
-        // Set the new Buffer size
-
         // Set the new Buffer
         fBuffer = tempBuffer;
 
-- 
2.43.0


From 09ddf5c39d2fa8680b5ac1db6dcddff7cf7bcf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 27/60] fix: check the header of an MVR-xchange package before
 the body is read

---
 src/mvrxchange/mvrxchange_client.cpp  |  5 ++++-
 src/mvrxchange/mvrxchange_message.cpp | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 605b92b..3ac4cf5 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -46,8 +46,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
     
     if(res.success)
     {
-        res.message.DecodeHeader();
+        res.success = res.message.DecodeHeader();
+    }
 
+    if(res.success)
+    {
         boost::asio::async_read(fSocket,
         boost::asio::buffer(res.message.GetBody(), res.message.GetBodyLength()),
         [&](const boost::system::error_code& result_error,
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 167890e..b6f2d1f 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = 1;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
@@ -113,7 +114,16 @@ bool MVRxchangePacket::DecodeHeader()
     fBodyLength = swap_endian(fBodyLength);
 
     // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    if (fBodyLength >= std::numeric_limits<size_t>::max() - total_header_length) { return false; }
+
+    try
+    {
+        fData->GrowTo(total_header_length + fBodyLength);
+    }
+    catch (const std::bad_alloc&)
+    {
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 18ecd3b231ac718bb58aa0ed25325b5292f4bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 28/60] fix: a copied MVRxchangeDynamicBuffer owns its own
 memory

---
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp | 38 ++++++--------------
 src/mvrxchange/mvrxchange_dynamic_buffer.h   |  1 -
 2 files changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index bef90df..bcdd49e 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -11,8 +11,6 @@ const size_t k_5_MegaByte = 5 * 1024;
 
 MVRxchangeDynamicBuffer::MVRxchangeDynamicBuffer()
 {
-    fReferenceCount = new size_t(1);
-
     fBuffer             = nullptr;
     fBufferSize         = 0;
     fAllocatedMemory    = 0;
@@ -20,43 +18,27 @@ MVRxchangeDynamicBuffer::MVRxchangeDynamicBuffer()
 
 MVRxchangeDynamicBuffer::MVRxchangeDynamicBuffer(const MVRxchangeDynamicBuffer& copy)
 {
-    fBufferSize         = copy.fBufferSize;
-    fBuffer             = copy.fBuffer;
-    fAllocatedMemory    = copy.fBufferSize;
+    fBuffer             = nullptr;
+    fBufferSize         = 0;
+    fAllocatedMemory    = 0;
 
-	// Increase reference Count by one
-    fReferenceCount = copy.fReferenceCount;
-	(*fReferenceCount)++;
+    Append(copy.fBufferSize, copy.fBuffer);
 }
 
 MVRxchangeDynamicBuffer& MVRxchangeDynamicBuffer::operator=(const MVRxchangeDynamicBuffer& copy)
 {
-    DisposeBuffer();
-    fBufferSize         = copy.fBufferSize;
-    fBuffer             = copy.fBuffer;
-    fAllocatedMemory    = copy.fBufferSize;
-
-	// Increase reference Count by one
-    fReferenceCount = copy.fReferenceCount;
-	(*fReferenceCount)++;
+    if (this != &copy)
+    {
+        DisposeBuffer();
+        Append(copy.fBufferSize, copy.fBuffer);
+    }
     return *this;
 }
 
 
 MVRxchangeDynamicBuffer::~MVRxchangeDynamicBuffer()
 {
-	// Decrease refence count
-	(*fReferenceCount)--;
-	
-	// If this is the last matrix
-	if (*fReferenceCount == 0)
-	{
-		// Release pointer
-		DisposeBuffer();
-		
-		// Release reference pointer
-		delete fReferenceCount;
-	}
+    DisposeBuffer();
 }
 
 void MVRxchangeDynamicBuffer::DisposeBuffer()
diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.h b/src/mvrxchange/mvrxchange_dynamic_buffer.h
index 82ddc5c..686248d 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.h
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.h
@@ -28,7 +28,6 @@ namespace MVRxchangeNetwork
         char*           fBuffer;
         size_t          fBufferSize;
         size_t          fAllocatedMemory;
-        size_t*	        fReferenceCount;
     };
 
 }
-- 
2.43.0


From fa127d41c3e4ea5bc9e6eb4ea0bf1003eaaca347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 29/60] fix: a peer that is already gone does not throw out of
 the MVR-xchange threads

---
 src/mvrxchange/mvrxchange_client.cpp  | 12 +++++++++---
 src/mvrxchange/mvrxchange_client.h    |  2 +-
 src/mvrxchange/mvrxchange_server.cpp  |  4 +++-
 src/mvrxchange/mvrxchange_session.cpp |  6 ++++--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 3ac4cf5..04898fa 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -64,9 +64,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
 
     if(res.success)
     {
+        boost::system::error_code endpointError;
+        const tcp::endpoint remote = this->fSocket.remote_endpoint(endpointError);
         res.messageInfo = TCPMessageInfo {
-            this->fSocket.remote_endpoint().port(),
-            this->fSocket.remote_endpoint().address().to_string()
+            remote.port(),
+            remote.address().to_string()
         };
     }
 
@@ -123,7 +125,11 @@ void MVRxchangeClient::Run(std::chrono::steady_clock::duration timeout)
 bool MVRxchangeClient::Connect(SendResult& res, const std::string& host, const std::string& service, std::chrono::steady_clock::duration timeout)
 {
     // Resolve the host name and service to a list of endpoints.
-    auto endpoints = tcp::resolver(fio_context).resolve(host, service);
+    auto endpoints = tcp::resolver(fio_context).resolve(host, service, res.error);
+    if (res.error.failed())
+    {
+        return res.success = false;
+    }
 
     // Start the asynchronous operation itself. The lambda that is used as a
     // callback will update the error variable when the operation completes.
diff --git a/src/mvrxchange/mvrxchange_client.h b/src/mvrxchange/mvrxchange_client.h
index 528863f..6ed1711 100644
--- a/src/mvrxchange/mvrxchange_client.h
+++ b/src/mvrxchange/mvrxchange_client.h
@@ -21,7 +21,7 @@ namespace MVRxchangeNetwork
     
     struct SendResult
     {
-        bool success;
+        bool success = false;
         boost::system::error_code error;
         TCPMessageInfo messageInfo;
         MVRxchangePacket message;
diff --git a/src/mvrxchange/mvrxchange_server.cpp b/src/mvrxchange/mvrxchange_server.cpp
index b0222de..b1da9bb 100644
--- a/src/mvrxchange/mvrxchange_server.cpp
+++ b/src/mvrxchange/mvrxchange_server.cpp
@@ -38,7 +38,9 @@ void MVRxchangeServer::DoAccept()
     {
         if (!ec)
         {
-            MVRXCHANGE_DEBUG("incoming message from: " << socket.remote_endpoint().address().to_string() << ":" << std::to_string(socket.remote_endpoint().port()));
+            boost::system::error_code endpointError;
+            const tcp::endpoint remote = socket.remote_endpoint(endpointError);
+            MVRXCHANGE_DEBUG("incoming message from: " << remote.address().to_string() << ":" << std::to_string(remote.port()));
             auto session = std::make_shared<MVRxchangeSession>(std::move(socket), fImpl, this);
 
             AddSession(session);
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index edde755..b9f3098 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -39,9 +39,11 @@ void MVRxchangeSession::DoRead()
                     IMVRxchangeService::IMVRxchangeMessage out;
                     fReadMsg.ToExternalMessage(out);
 
+                    boost::system::error_code endpointError;
+                    const tcp::endpoint remote = this->fSocket.remote_endpoint(endpointError);
                     TCPMessageInfo info {
-                        this->fSocket.remote_endpoint().port(),
-                        this->fSocket.remote_endpoint().address().to_string()
+                        remote.port(),
+                        remote.address().to_string()
                     };
                     IMVRxchangeService::IMVRxchangeMessage in = fImpl->TCP_OnIncommingMessage(out, info);
                     delete[] out.BufferToFile;
-- 
2.43.0


From 11ccae468e99eea9f5e0540377c11a796c150114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 30/60] fix: report an MVR-xchange file that cannot be read
 instead of sending garbage

---
 src/mvrxchange/mvrxchange_message.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index b6f2d1f..da98fd1 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -283,7 +283,9 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     fNumber     = 0;
     fCount      = 1;
 
-    if(in.Type == IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET && in.RetIsOK)
+    bool sendFile = in.Type == IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET && in.RetIsOK;
+
+    if(sendFile)
     {
         if(in.BufferToFile)
         {
@@ -299,19 +301,32 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
 
             Uint64 size = 0;
             IRawOSFilePtr rawFile (IID_RawOSFile);
-            rawFile->Open(file, true, false, true, false);
-            rawFile->GetFileSize(fBodyLength);
-            fData->GrowTo(fBodyLength + total_header_length);
-            rawFile->Read(0, fBodyLength, GetBody());
+            sendFile = VCOM_SUCCEEDED(rawFile->Open(file, true, false, true, false))
+                    && VCOM_SUCCEEDED(rawFile->GetFileSize(size));
+            if(sendFile)
+            {
+                fBodyLength = size;
+                fData->GrowTo(fBodyLength + total_header_length);
+                sendFile = VCOM_SUCCEEDED(rawFile->Read(0, fBodyLength, GetBody())) && fBodyLength == size;
+            }
             rawFile->Close();
         }
+    }
 
+    if(sendFile)
+    {
         fType       = kMVR_Package_BUFFER_TYPE;
 
         MVRXCHANGE_DEBUG("outgoing buffer:\n" << "size: " << fBodyLength);
     }
     else
     {
+        if(in.Type == IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET && in.RetIsOK)
+        {
+            payload["OK"]       = false;
+            payload["Message"]  = "The requested file could not be read";
+        }
+
         MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
         std::string s = payload.dump();
         fBodyLength = s.size();
-- 
2.43.0


From 496ac3ba630eb2c78ee654fcedbe67068e3c36f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 31/60] fix: free the file buffer of a sent MVR-xchange message
 once

---
 src/mvrxchange/mvrxchange_message.cpp | 1 -
 src/mvrxchange/mvrxchange_session.cpp | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index da98fd1..419338f 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -292,7 +292,6 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
             fBodyLength = in.BufferToFileLength;
             fData->GrowTo(fBodyLength + total_header_length);
             memcpy(GetBody(), in.BufferToFile, fBodyLength);
-            delete[] in.BufferToFile;
         }
         else
         {
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index b9f3098..8c65631 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -50,6 +50,7 @@ void MVRxchangeSession::DoRead()
                     
                     MVRxchangePacket in_msg;
                     in_msg.FromExternalMessage(in);
+                    delete[] in.BufferToFile;
                     Deliver(in_msg);
                 }
                 else
-- 
2.43.0


From ce60943209e4cf64cdee0ca09146f9c9e873eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 32/60] fix: a cancelled mDNS timer does not start another
 query

---
 src/mvrxchange/CMVRxchangeService.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index eec624a..0ae5e45 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -445,7 +445,13 @@ void CMVRxchangeServiceImpl::mDNS_Client_Tick()
 	mDNS_Client_Task();
 
 	fmdns_long_timer.expires_from_now(boost::posix_time::seconds(45));
-	fmdns_long_timer.async_wait(boost::bind(&CMVRxchangeServiceImpl::mDNS_Client_Tick, this));
+	fmdns_long_timer.async_wait([this](const boost::system::error_code& error){
+		// The wait of an earlier connection is cancelled by the next tick, it must not start one more
+		if(!error)
+		{
+			mDNS_Client_Tick();
+		}
+	});
 }
 
 void CMVRxchangeServiceImpl::mDNS_Client_RFun()
-- 
2.43.0


From 89296b76a8b783699f527c1c1eedba8552bd4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 33/60] fix: lock the message callbacks of the MVR-xchange
 service

---
 src/mvrxchange/CMVRxchangeService.cpp | 21 +++++++++++++++++----
 src/mvrxchange/CMVRxchangeService.h   |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 0ae5e45..c55801d 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -205,6 +205,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveRemoteService()
 
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::OnMessage(OnMessageArgs& messageHandler)
 {
+	std::lock_guard<std::mutex> lock(fCallBackMutex);
 	fCallBack = messageHandler;
 
 	return kVCOMError_NoError;
@@ -347,10 +348,16 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
 		);
 	}
 
+	OnMessageArgs callBack;
+	{
+		std::lock_guard<std::mutex> lock(fCallBackMutex);
+		callBack = fCallBack;
+	}
+
 	IMVRxchangeService::IMVRxchangeMessage ret;
-	if (fCallBack.IncomingCallback)
+	if (callBack.IncomingCallback)
 	{
-		ret = fCallBack.IncomingCallback(in, fCallBack.Context);
+		ret = callBack.IncomingCallback(in, callBack.Context);
 	}
 
 
@@ -363,12 +370,18 @@ void CMVRxchangeServiceImpl::TCP_OnReturningMessage(
 	const IMVRxchangeService::IMVRxchangeMessage& in, 
 	const TCPMessageInfo& data)
 {
+	OnMessageArgs callBack;
+	{
+		std::lock_guard<std::mutex> lock(fCallBackMutex);
+		callBack = fCallBack;
+	}
+
 	if(messageArgs.CustomReturnCallback)
 	{
 		messageArgs.CustomReturnCallback(messageArgs.Message, in, messageArgs.CustomReturnContext);
-	}else if (fCallBack.ReturningCallback)
+	}else if (callBack.ReturningCallback)
 	{
-		fCallBack.ReturningCallback(messageArgs.Message, in, fCallBack.Context);
+		callBack.ReturningCallback(messageArgs.Message, in, callBack.Context);
 	}
 }
 
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 982280e..5730feb 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -77,6 +77,7 @@ namespace VectorworksMVR
 		std::vector<MVRxchangeGroupMember>			fMVRGroup;
 	private:
 
+		std::mutex     fCallBackMutex;
 		OnMessageArgs  fCallBack;
 		//---------------------------------------------------------------------------
 		// TCP Client - Local Network mode
-- 
2.43.0


From 557369dbb35a43af087e4dc448d27a3f101421aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 34/60] fix: refuse MVR-xchange messages whose station or file
 uuids are missing or broken

---
 src/mvrxchange/mvrxchange_message.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 419338f..57f4c1d 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -183,8 +183,11 @@ void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_
     in.FileSize= payload.at("FileSize");
     in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
+    if(!SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID)
+    || !SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID))
+    {
+        throw std::runtime_error("Unable to parse UUID correctly");
+    }
 
     in.ForStationsUUID.clear();
     // TODO
@@ -442,6 +445,10 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         {
             noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
+        else
+        {
+            throw std::runtime_error("Station UUID is missing");
+        }
     }
     else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
-- 
2.43.0


From 37f561e44c9d6d6c121c55019a6a12641a2e4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 35/60] fix: a message without a type does not throw out of the
 MVR-xchange threads

---
 src/mvrxchange/mvrxchange_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 57f4c1d..5900597 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -280,7 +280,7 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
         break;
     }
 
-    MVRXCHANGE_LOG("sending message of type: " << payload["Type"].get<std::string>());
+    MVRXCHANGE_LOG("sending message of type: " << payload.value("Type", std::string()));
 
     fFlag       = kMVR_Package_Flag;
     fNumber     = 0;
-- 
2.43.0


From 9753168ffba77ec000809791c885e812f5e04ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 36/60] fix: texts that are no UTF-8 do not throw out of the
 MVR-xchange threads

---
 src/mvrxchange/mvrxchange_message.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 5900597..a04c838 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -330,7 +330,8 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
         }
 
         MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
-        std::string s = payload.dump();
+        // Texts may hold bytes that are no UTF-8, e.g. of a character that was cut in two
+        std::string s = payload.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
         fBodyLength = s.size();
         fType       = kMVR_Package_JSON_TYPE;
 
-- 
2.43.0


From e3661ee1bd6fa0abd4caa14ef033c8c88c7c5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 37/60] fix: texts in a broken encoding do not throw out of
 TXString

---
 src/GSString.cpp | 74 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..3c5f6d0 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -41,6 +41,64 @@ inline void utf32BufferToTXCharBuffer(const char32_t* input, TXChar* output, siz
 inline void txCharBufferToUtf32Buffer(const TXChar* input, char32_t* output, size_t bufElemNum = -1);
 inline void utf8BufferToTXCharBuffer(const char* const input, TXChar* output, size_t inputLen);
 
+#if GS_LIN
+//=======================================================================================
+// The converters are created with texts for the case of an error: like this they do not
+// throw. Each unit that cannot be converted is replaced by U+FFFD.
+static StdUStr Utf8ToUtf16(const std::string& src)
+{
+	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert{std::string(), std::u16string()};
+
+	StdUStr result = convert.from_bytes(src);
+	if (convert.converted() == src.size()) return result;
+
+	result.clear();
+	for (size_t pos = 0; pos < src.size();)
+	{
+		size_t len = 0;
+		StdUStr character;
+		do
+		{
+			++len;
+			character = convert.from_bytes(src.data() + pos, src.data() + pos + len);
+		}
+		while (convert.converted() != len && len < 4 && pos + len < src.size());
+
+		const bool valid = convert.converted() == len;
+		result += valid ? character : StdUStr(1, (TXChar)0xFFFD);
+		pos    += valid ? len       : 1;
+	}
+
+	return result;
+}
+
+static std::string Utf16ToUtf8(const StdUStr& src)
+{
+	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert{std::string(), std::u16string()};
+
+	std::string result = convert.to_bytes(src);
+	if (convert.converted() == src.size()) return result;
+
+	result.clear();
+	for (size_t pos = 0; pos < src.size();)
+	{
+		size_t len = 1;
+		std::string character = convert.to_bytes(src.data() + pos, src.data() + pos + len);
+		if (convert.converted() != len && pos + 1 < src.size())
+		{
+			len = 2;
+			character = convert.to_bytes(src.data() + pos, src.data() + pos + len);
+		}
+
+		const bool valid = convert.converted() == len;
+		result += valid ? character : "\xEF\xBF\xBD";
+		pos    += valid ? len       : 1;
+	}
+
+	return result;
+}
+#endif
+
 //#######################################################################################
 // TXString class
 //#######################################################################################
@@ -230,7 +288,7 @@ TXString::TXString(const wchar_t* src)
 		stdUStr = src;
 #elif GS_LIN
 		std::u32string wStr((const char32_t*)src);
-		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
+		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert{std::string(), std::u32string()};
 		std::string bytes = convert.to_bytes(wStr);
 
 		std::u16string result;
@@ -266,7 +324,7 @@ TXString::TXString(const wchar_t* src, size_t numWChars)
 		stdUStr.assign(src, length);
 #elif GS_LIN
 		std::u32string wSrc((const char32_t*)src, numWChars);
-		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
+		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert{std::string(), std::u32string()};
 		std::string bytes = convert.to_bytes(wSrc);
 
 		std::u16string result;
@@ -394,7 +452,7 @@ TXString& TXString::operator=(const std::wstring& src)
 	stdUStr = src.data();
 #elif GS_LIN
 	std::u32string wSrc((const char32_t*)src.data());
-	std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
+	std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert{std::string(), std::u32string()};
 	std::string bytes = convert.to_bytes(wSrc);
 
 	std::u16string result;
@@ -1540,7 +1598,7 @@ std::wstring TXString::GetStdWString() const
 #if GS_WIN
 	return std::wstring(stdUStr.c_str());
 #elif GS_LIN
-	std::wstring_convert<std::codecvt_utf16<wchar_t, 0x10ffff, std::little_endian>> converter;
+	std::wstring_convert<std::codecvt_utf16<wchar_t, 0x10ffff, std::little_endian>> converter{std::string(), std::wstring()};
 
 	return converter.from_bytes((const char*)stdUStr.data(), (const char*)(stdUStr.data() + stdUStr.length()));
 #else
@@ -1674,7 +1732,7 @@ void TXString::CopyInto(wchar_t* dst, size_t bufElemSize) const
 			bytes.push_back(static_cast<char>(c % 256));
 		}
 
-		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
+		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert{std::string(), std::u32string()};
 		std::u32string u32Str = convert.from_bytes(bytes);
 
 
@@ -2407,8 +2465,7 @@ void TXString::PrepareCharBuffer(ETXEncoding encoding) const
 		charPtr = (char*)::operator new(charBufSize);
 	}
 
-	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert;
-	std::string str = convert.to_bytes(stdUStr);
+	std::string str = Utf16ToUtf8(stdUStr);
 
 	size_t strLen = str.size();
 	for (size_t i = 0; i < charBufSize && i < strLen; i++)
@@ -2524,9 +2581,8 @@ void TXString::SetStdUStrFromCharBuffer(const char* src, size_t srcLenToUse, ETX
     }
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
-	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
 	std::string strSrc = std::string(src, strLen);
-	stdUStr = converter.from_bytes(strSrc);
+	stdUStr = Utf8ToUtf16(strSrc);
 #else	// Mac
 	if(encoding == ETXEncoding::eUTF8)
 	{
-- 
2.43.0


From 2ae628dda60c24eec6024130d8a1d8592dfb7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 38/60] fix: geometry references without a break are not asked
 for their last break

---
 src/GDTFManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6c1df1d..f8f78a8 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5245,6 +5245,8 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
 				{
 					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+					if(refBreaks.empty()) { continue; }
+
 					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
 					{
 						breaks.push_back(refBreaks.back()->GetDmxBreak());
@@ -5351,9 +5353,9 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 
 			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
 			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
-			if(foundIndex != breakIdsOfReference.end())
+			size_t indexOfBreak = std::distance(breakIdsOfReference.begin(),foundIndex);
+			if(foundIndex != breakIdsOfReference.end() && indexOfBreak < geoRef->GetBreakArray().size())
 			{
-				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
 				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
 				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
 
@@ -5378,7 +5380,7 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			}
 
 			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
+			if(overwrite && ! geoRef->GetBreakArray().empty())
 			{
 				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
 				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
-- 
2.43.0


From 814c81949475657904b52f29e2c9ee09d7f4f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 39/60] fix: reads from a damaged archive stay inside of it

---
 src/Wrapper/ZIPFileBuffer.cpp | 11 ++++++++++-
 src/Wrapper/ZIPFileImpl.cpp   |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..0717e56 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -43,7 +43,8 @@ VCOMError ZIPFileBuffer::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 		// load in buffer
 		fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
 		fAllocatedMemorySize = fZIPFileBufferSize;
-		file->Read(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		Uint64 readSize      = fZIPFileBufferSize;
+		file->Read(0, readSize, fpZIPFileBuffer);
 
 		// close file
 		file->Close();
@@ -94,6 +95,14 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
+	// Nothing can be read behind the end
+	if (position >= fZIPFileBufferSize)
+	{
+		inoutSize = 0;
+		return kVCOMError_NoError;
+	}
+	if (inoutSize > fZIPFileBufferSize - position) { inoutSize = fZIPFileBufferSize - position; }
+
 	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
 	return kVCOMError_NoError;
 }
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..bf5ac17 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -1014,6 +1014,7 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 		}
 		else
 		{
+			outRead = 0;
 			Uint64 size = sizeof(Uint32);
 			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
 			currentReadPosition +=sizeof(Uint32);
@@ -1034,6 +1035,7 @@ void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 		}
 		else
 		{
+			outRead = 0;
 			Uint64 size = sizeof(Uint16);
 			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
 			currentReadPosition +=sizeof(Uint16);
-- 
2.43.0


From e8e642c9ffab857c77c495d0e431fddfdca03022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 40/60] fix: names of archive entries longer than 1024 bytes
 overran their buffer

---
 src/Wrapper/ZIPFileImpl.cpp | 2 +-
 src/Wrapper/ZIPFileImpl.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index bf5ac17..fedda44 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -288,7 +288,7 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( ( (size_t)inOutReadSize == fileNameLength ) && fileNameLength > 0 && fReadFileName[0] != 0)
 		{
 			outPath  = std::string( fReadFileName, fileNameLength );
 		}
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 2fbdadb..0bb7d35 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -131,7 +131,7 @@ namespace VectorworksMVR
 
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
-			char							fReadFileName[1024];
+			char							fReadFileName[0x10000];	// the length of a name is a 16 bit number
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From 9a155e1d02c12532780f60aec0fec1d4c8d00abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 41/60] fix: archive entries that are missing or cut off are
 not read from uninitialised memory

---
 src/Wrapper/ZIPFileImpl.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index fedda44..5d1f013 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -414,7 +414,9 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	err = this->GetFileInfo( path, fileInfo );
+	if ( err != kVCOMError_NoError )
+		return err;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
 	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
@@ -427,6 +429,12 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	currentReadPosition += fileNameLength + extraFieldLength;
 
+	// all of the data has to be there
+	Uint64 archiveSize = 0;
+	this->GetSize( archiveSize );
+	if ( (Uint64)currentReadPosition + fileInfo.dwCompressedSize > archiveSize )
+		return kVCOMError_Failed;
+
 	// read the raw data
 	char* readData = new char[ fileInfo.dwCompressedSize ]; 
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
-- 
2.43.0


From 89cce9abb4879aa54ce6a3fcd79fc1714f816de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 42/60] fix: TXString read wide characters behind the end of
 the text

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 3c5f6d0..87df316 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -323,7 +323,7 @@ TXString::TXString(const wchar_t* src, size_t numWChars)
 #if GS_WIN
 		stdUStr.assign(src, length);
 #elif GS_LIN
-		std::u32string wSrc((const char32_t*)src, numWChars);
+		std::u32string wSrc((const char32_t*)src, length);
 		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert{std::string(), std::u32string()};
 		std::string bytes = convert.to_bytes(wSrc);
 
-- 
2.43.0


From 3b88862353f3dcecd2ae05148c428f1601f54b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 43/60] fix: GDTF objects start with defined numbers, flags and
 enumerators

---
 src/GDTFManager.h | 86 +++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index c060b09..89ec848 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -375,13 +375,13 @@ namespace SceneData
 												GdtfWheelSlotAnimationSystem();
 												~GdtfWheelSlotAnimationSystem();
 	private:
-		double									fP1_X;
-		double									fP1_Y;
-		double									fP2_X;
-		double									fP2_Y;
-		double									fP3_X;
-		double									fP3_Y;
-		double									fRadius;
+		double									fP1_X = 0;
+		double									fP1_Y = 0;
+		double									fP2_X = 0;
+		double									fP2_Y = 0;
+		double									fP3_X = 0;
+		double									fP3_Y = 0;
+		double									fRadius = 0;
 
     public:
         double									GetP1_X();
@@ -975,9 +975,9 @@ namespace SceneData
 												~GdtfGeometryDisplay();
 	private:
 		TXString								fTexture;
-		size_t									fWidth;
-		size_t									fHeight;
-		bool 									fIsCurved;
+		size_t									fWidth = 0;
+		size_t									fHeight = 0;
+		bool 									fIsCurved = false;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1031,15 +1031,15 @@ namespace SceneData
 	
 	private:
 		EGdtfLaserColorType 					fColorType;
-		double									fColor; //Wavelength
-		double									fOutputStrength;
+		double									fColor = 0; //Wavelength
+		double									fOutputStrength = 0;
 		GdtfPhysicalEmitter*					fEmitter;
-		double 									fBeamDiameter;
-		double									fBeamDivergenceMin;
-		double									fBeamDivergenceMax;
-		double									fScanAnglePan;
-		double									fScanAngleTilt;
-		double									fScanSpeed;
+		double 									fBeamDiameter = 0;
+		double									fBeamDivergenceMin = 0;
+		double									fBeamDivergenceMax = 0;
+		double									fScanAnglePan = 0;
+		double									fScanAngleTilt = 0;
+		double									fScanSpeed = 0;
 
 		TXString 								fUnresolvedEmitter;
 
@@ -1094,8 +1094,8 @@ namespace SceneData
 												~GdtfPinPatch();
 	private:
 		GdtfGeometryWiringObjectPtr				fToWiringObject;
-		size_t									fFromPin;
-		size_t									fToPin;
+		size_t									fFromPin = 0;
+		size_t									fToPin = 0;
 
 		TXString								fUnresolvedWiringObject;
 
@@ -1209,7 +1209,7 @@ namespace SceneData
 												GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent);
 												~GdtfGeometryInventory();
 	private:
-		size_t									fCount;
+		size_t									fCount = 0;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1234,10 +1234,10 @@ namespace SceneData
 	
 	private:
 		GdtfGeometry*   						fLinkedGeometry;
-		EGdtfStructureType 						fStructureType;
-		EGdtfCrossSectionType 					fCrossSectionType;
-		double									fCrossSectionHeight; //Tube
-		double									fCrossSectionWallThickness; //Tube
+		EGdtfStructureType 						fStructureType = EGdtfStructureType::CenterLineBased;
+		EGdtfCrossSectionType 					fCrossSectionType = EGdtfCrossSectionType::TrussFramework;
+		double									fCrossSectionHeight = 0; //Tube
+		double									fCrossSectionWallThickness = 0; //Tube
 		TXString								fTrussCrossSection; //TrussFramework
 
 		TXString 								fUnresolvedLinkedGeometry;
@@ -1279,21 +1279,21 @@ namespace SceneData
 												~GdtfGeometrySupport();
 	
 	private:
-		EGdtfSupportType						fSupportType;
-		double 									fCapacityX;
-		double 									fCapacityY;
-		double 									fCapacityZ;
-		double 									fCapacityXX;
-		double 									fCapacityYY;
-		double 									fCapacityZZ;
+		EGdtfSupportType						fSupportType = EGdtfSupportType::Rope;
+		double 									fCapacityX = 0;
+		double 									fCapacityY = 0;
+		double 									fCapacityZ = 0;
+		double 									fCapacityXX = 0;
+		double 									fCapacityYY = 0;
+		double 									fCapacityZZ = 0;
 		TXString 								fRopeCrossSection; 	//Rope
 		VWPoint3D 								fRopeOffset; 		//Rope
-		double 									fResistanceX;		//GroundSupport
-		double 									fResistanceY;		//GroundSupport
-		double 									fResistanceZ;		//GroundSupport
-		double 									fResistanceXX;		//GroundSupport
-		double 									fResistanceYY;		//GroundSupport
-		double 									fResistanceZZ;		//GroundSupport
+		double 									fResistanceX = 0;		//GroundSupport
+		double 									fResistanceY = 0;		//GroundSupport
+		double 									fResistanceZ = 0;		//GroundSupport
+		double 									fResistanceXX = 0;		//GroundSupport
+		double 									fResistanceYY = 0;		//GroundSupport
+		double 									fResistanceZZ = 0;		//GroundSupport
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1942,7 +1942,7 @@ namespace SceneData
 												~GdtfMacroDMXValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fValue;
+		DmxValue								fValue = 0;
 		TXString								funresolvedDMXChannel;
 		GdtfDmxChannelPtr						fDMXChannel;
 	public:
@@ -1973,7 +1973,7 @@ namespace SceneData
 												GdtfMacroDMXStep(double duration);
 												~GdtfMacroDMXStep();
 	private:
-		double									fDuration;
+		double									fDuration = 0;
 		// Childs
 		TGdtfMacroDMXValueArray					fDMXValues;
 	public:
@@ -2022,7 +2022,7 @@ namespace SceneData
 												~GdtfMacroVisualValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fDmxValue;
+		DmxValue								fDmxValue = 0;
 		TXString								fUnresolvedChannelFunctionRef;
 		GdtfDmxChannelFunctionPtr				fChannelFunctionRef;
 	public:
@@ -2341,8 +2341,8 @@ namespace SceneData
 												GdtfMap(Uint32 key, Uint32 value);
 												~GdtfMap();
     private:
-        Uint32									fKey;
-		Uint32									fValue;
+        Uint32									fKey = 0;
+		Uint32									fValue = 0;
     public:
         virtual EGdtfObjectType					GetObjectType();
         // Getters
-- 
2.43.0


From ee881b67eb7de45e19d77135d678dad4d9a21842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 44/60] fix: scene objects start with defined numbers, flags
 and enumerators

---
 src/SceneDataExchange.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 4f116fe..d765403 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -276,7 +276,7 @@ namespace SceneData
 	private:
 		TXString 						fValue;
 		TXString 						fLinkedGeometry;
-		GdtfDefines::ESourceType		fType;
+		GdtfDefines::ESourceType		fType = ESourceType::NDI;
 		
 	public:
 		virtual const TXString& 		GetValue();
@@ -348,11 +348,11 @@ namespace SceneData
 	private:
 
 		SceneDataGUID					fLinkedDefUuid;
-		Uint32							fUx;
-		Uint32							fUy;
-		Uint32							fOx;
-		Uint32							fOy;
-		double							fRz;
+		Uint32							fUx = 0;
+		Uint32							fUy = 0;
+		Uint32							fOx = 0;
+		Uint32							fOy = 0;
+		double							fRz = 0;
 		
 	public:
 		virtual SceneDataGUID			GetLinkedDefUuid();
@@ -921,7 +921,7 @@ namespace SceneData
 	
 	private:
 		SceneDataSourceObjPtr 				fSource;
-		EScaleHandlingType					fScaleHandling;
+		EScaleHandlingType					fScaleHandling = EScaleHandlingType::ScaleKeepRatio;
 
 	public:
 		virtual SceneDataSourceObjPtr 		GetVideoSource();
@@ -993,7 +993,7 @@ namespace SceneData
 		
 		// File Operation Handeling
 		IFolderIdentifierPtr				fWorkingFolder;
-		bool								fUndoStarted;
+		bool								fUndoStarted = false;
 		//
         TFileIdentifierPtrArray				f3DS_FilesToAdd;
         TFileIdentifierPtrArray				f3DSLow_FilesToAdd;
@@ -1017,7 +1017,7 @@ namespace SceneData
 		TSymDefMap							fSymDefMap;
 		
 		//
-		size_t								fCountExportedGeometryProviders;
+		size_t								fCountExportedGeometryProviders = 0;
 		TXString							fProvider;
 		TXString							fProviderVersion;
 
-- 
2.43.0


From 8b765c1234a7cc6d4058071a8366a548bffbddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 45/60] fix: API objects start without a model object

---
 src/Implementation/CGdtfCRI.h              | 2 +-
 src/Implementation/CGdtfCRIGroup.h         | 2 +-
 src/Implementation/CGdtfDmxProfile.h       | 2 +-
 src/Implementation/CGdtfGeometry.h         | 2 +-
 src/Implementation/CGdtfMacroDMX.h         | 2 +-
 src/Implementation/CGdtfMacroDMXStep.h     | 2 +-
 src/Implementation/CGdtfMacroDMXValue.h    | 2 +-
 src/Implementation/CGdtfMacroVisual.h      | 2 +-
 src/Implementation/CGdtfMacroVisualStep.h  | 2 +-
 src/Implementation/CGdtfMacroVisualValue.h | 2 +-
 src/Implementation/CGdtfPoint.h            | 2 +-
 11 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Implementation/CGdtfCRI.h b/src/Implementation/CGdtfCRI.h
index a4b3558..546acbd 100644
--- a/src/Implementation/CGdtfCRI.h
+++ b/src/Implementation/CGdtfCRI.h
@@ -24,7 +24,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
 
     private:
-        SceneData::GdtfCRI* fCRI;
+        SceneData::GdtfCRI* fCRI = nullptr;
 
     public:
         void				SetPointer(SceneData::GdtfCRI* CRI);
diff --git a/src/Implementation/CGdtfCRIGroup.h b/src/Implementation/CGdtfCRIGroup.h
index d4e8e17..bf6662b 100644
--- a/src/Implementation/CGdtfCRIGroup.h
+++ b/src/Implementation/CGdtfCRIGroup.h
@@ -24,7 +24,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
 
     private:
-        SceneData::GdtfCRIGroup* fCRIGroup;
+        SceneData::GdtfCRIGroup* fCRIGroup = nullptr;
 
     public:
         void					    SetPointer(SceneData::GdtfCRIGroup* CRIGroup);
diff --git a/src/Implementation/CGdtfDmxProfile.h b/src/Implementation/CGdtfDmxProfile.h
index 0ded967..faf9499 100644
--- a/src/Implementation/CGdtfDmxProfile.h
+++ b/src/Implementation/CGdtfDmxProfile.h
@@ -25,7 +25,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
 
     private:
-        SceneData::GdtfDMXProfile* fDMXProfile;
+        SceneData::GdtfDMXProfile* fDMXProfile = nullptr;
 
     public:
         void				        SetPointer(SceneData::GdtfDMXProfile* dmxProfile);
diff --git a/src/Implementation/CGdtfGeometry.h b/src/Implementation/CGdtfGeometry.h
index 08c754e..a0faef9 100644
--- a/src/Implementation/CGdtfGeometry.h
+++ b/src/Implementation/CGdtfGeometry.h
@@ -203,7 +203,7 @@ namespace VectorworksMVR
 		
     private:
         SceneData::GdtfGeometry*	fGeometry;
-		EGdtfObjectType				fGeometryType;
+		EGdtfObjectType				fGeometryType = EGdtfObjectType::eGdtfGeometry;
         
     public:
         void						SetPointer(SceneData::GdtfGeometry* geometry);
diff --git a/src/Implementation/CGdtfMacroDMX.h b/src/Implementation/CGdtfMacroDMX.h
index 32fb096..7d1426b 100644
--- a/src/Implementation/CGdtfMacroDMX.h
+++ b/src/Implementation/CGdtfMacroDMX.h
@@ -21,7 +21,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
 
     private:
-        SceneData::GdtfMacroDMX* fMacroDMX;        
+        SceneData::GdtfMacroDMX* fMacroDMX = nullptr;        
 
     public:
         void					    SetPointer(SceneData::GdtfMacroDMX* macroDMX);
diff --git a/src/Implementation/CGdtfMacroDMXStep.h b/src/Implementation/CGdtfMacroDMXStep.h
index dba90fc..d4a3722 100644
--- a/src/Implementation/CGdtfMacroDMXStep.h
+++ b/src/Implementation/CGdtfMacroDMXStep.h
@@ -23,7 +23,7 @@ namespace VectorworksMVR
         virtual VCOMError VCOM_CALLTYPE     BindToObject(void* objAddr);
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
     private:
-        SceneData::GdtfMacroDMXStep* fMacroDMXStep;
+        SceneData::GdtfMacroDMXStep* fMacroDMXStep = nullptr;
 
     public:
         void					        SetPointer(SceneData::GdtfMacroDMXStep* MacroDMXStep);
diff --git a/src/Implementation/CGdtfMacroDMXValue.h b/src/Implementation/CGdtfMacroDMXValue.h
index b0250a2..4afe72e 100644
--- a/src/Implementation/CGdtfMacroDMXValue.h
+++ b/src/Implementation/CGdtfMacroDMXValue.h
@@ -20,7 +20,7 @@ namespace VectorworksMVR
         virtual VCOMError VCOM_CALLTYPE   BindToObject(void* objAddr);
         virtual void*	  VCOM_CALLTYPE   GetBoundObject();
     private:
-        SceneData::GdtfMacroDMXValue* fMacroDMXValue;
+        SceneData::GdtfMacroDMXValue* fMacroDMXValue = nullptr;
 
     public:
         void					        SetPointer(SceneData::GdtfMacroDMXValue* MacroDMXValue);
diff --git a/src/Implementation/CGdtfMacroVisual.h b/src/Implementation/CGdtfMacroVisual.h
index 06d0419..6de3af4 100644
--- a/src/Implementation/CGdtfMacroVisual.h
+++ b/src/Implementation/CGdtfMacroVisual.h
@@ -21,7 +21,7 @@ namespace VectorworksMVR
         virtual VCOMError VCOM_CALLTYPE     BindToObject(void* objAddr);
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
     private:
-        SceneData::GdtfMacroVisual* fMacroVisual;
+        SceneData::GdtfMacroVisual* fMacroVisual = nullptr;
     public:
         void					SetPointer(SceneData::GdtfMacroVisual* macroVisual);
         SceneData::GdtfMacroVisual*	GetPointer();
diff --git a/src/Implementation/CGdtfMacroVisualStep.h b/src/Implementation/CGdtfMacroVisualStep.h
index 41dde3e..0594f2e 100644
--- a/src/Implementation/CGdtfMacroVisualStep.h
+++ b/src/Implementation/CGdtfMacroVisualStep.h
@@ -30,7 +30,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
 
     private:
-        SceneData::GdtfMacroVisualStep* fMacroVisualStep;
+        SceneData::GdtfMacroVisualStep* fMacroVisualStep = nullptr;
 
     public:
         void					        SetPointer(SceneData::GdtfMacroVisualStep* macroVisualStep);
diff --git a/src/Implementation/CGdtfMacroVisualValue.h b/src/Implementation/CGdtfMacroVisualValue.h
index 2b03cc3..791e563 100644
--- a/src/Implementation/CGdtfMacroVisualValue.h
+++ b/src/Implementation/CGdtfMacroVisualValue.h
@@ -24,7 +24,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE   GetBoundObject();
 
     private:
-        SceneData::GdtfMacroVisualValue* fMacroVisualValue;
+        SceneData::GdtfMacroVisualValue* fMacroVisualValue = nullptr;
 
     public:
         void					            SetPointer(SceneData::GdtfMacroVisualValue* macroVisualValue);
diff --git a/src/Implementation/CGdtfPoint.h b/src/Implementation/CGdtfPoint.h
index fe31b74..c17bbde 100644
--- a/src/Implementation/CGdtfPoint.h
+++ b/src/Implementation/CGdtfPoint.h
@@ -31,7 +31,7 @@ namespace VectorworksMVR
         virtual void*	  VCOM_CALLTYPE     GetBoundObject();
 
     private:
-        SceneData::GdtfPoint* fPoint;
+        SceneData::GdtfPoint* fPoint = nullptr;
 
     public:
         void				    SetPointer(SceneData::GdtfPoint* point);
-- 
2.43.0


From 4d78facdeea9e0b3db36dff7cdd33709889c67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 46/60] fix: the reference counts of XML files and nodes start
 at zero

---
 src/rapidxmlsupport/XMLFileImpl.h     | 2 +-
 src/rapidxmlsupport/XMLFileNodeImpl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rapidxmlsupport/XMLFileImpl.h b/src/rapidxmlsupport/XMLFileImpl.h
index 23c4773..2c27ca2 100644
--- a/src/rapidxmlsupport/XMLFileImpl.h
+++ b/src/rapidxmlsupport/XMLFileImpl.h
@@ -49,7 +49,7 @@ namespace VectorworksMVR
 			virtual uint32_t	VCOM_CALLTYPE	AddRef();
 			virtual uint32_t	VCOM_CALLTYPE	Release();
 			private:
-			uint32_t 				fRefCnt;
+			uint32_t 				fRefCnt = 0;
 			tinyxml2::XMLDocument 	fDoc;
 
 		};
diff --git a/src/rapidxmlsupport/XMLFileNodeImpl.h b/src/rapidxmlsupport/XMLFileNodeImpl.h
index b2611ac..6b1b77f 100644
--- a/src/rapidxmlsupport/XMLFileNodeImpl.h
+++ b/src/rapidxmlsupport/XMLFileNodeImpl.h
@@ -56,7 +56,7 @@ namespace VectorworksMVR
 			virtual uint32_t	VCOM_CALLTYPE	AddRef();
 			virtual uint32_t	VCOM_CALLTYPE	Release();
 		private:
-			uint32_t 				fRefCnt;
+			uint32_t 				fRefCnt = 0;
 			tinyxml2::XMLElement* 	fElement;
 			
 		public:
-- 
2.43.0


From bdc0092226af7c1cfc9d39249ed1eb1955a4a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 47/60] fix: the numbers of MVR-xchange messages start defined

---
 src/Include/IMediaRessourceVectorInterface.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Include/IMediaRessourceVectorInterface.h b/src/Include/IMediaRessourceVectorInterface.h
index 223d4c5..57499c6 100644
--- a/src/Include/IMediaRessourceVectorInterface.h
+++ b/src/Include/IMediaRessourceVectorInterface.h
@@ -1933,9 +1933,9 @@ class DYNAMIC_ATTRIBUTE IGdtfMacro : public IVWUnknown
 		{
 			MVRxchangeString			    FileName;
 			MVRxchangeString 				Comment;
-			uint32_t 						VersionMajor;
-			uint32_t 						VersionMinor;
-			uint64_t 						FileSize;
+			uint32_t 						VersionMajor = 0;
+			uint32_t 						VersionMinor = 0;
+			uint64_t 						FileSize = 0;
 			MvrUUID							FileUUID;
 			MvrUUID							StationUUID;
 			std::vector<MvrUUID>			ForStationsUUID;
@@ -1946,8 +1946,8 @@ class DYNAMIC_ATTRIBUTE IGdtfMacro : public IVWUnknown
 			MVRxchangeString 				Provider;
 			MVRxchangeString 				StationName;
 			MvrUUID							StationUUID;
-			uint32_t 						VersionMajor;
-			uint32_t 						VersionMinor;
+			uint32_t 						VersionMajor = 0;
+			uint32_t 						VersionMinor = 0;
 			std::vector<MVR_COMMIT_MESSAGE> Commits;
 		};
 
@@ -1995,15 +1995,15 @@ class DYNAMIC_ATTRIBUTE IGdtfMacro : public IVWUnknown
 			MVRxchangeString 	StationName;
 			MVRxchangeString 	Provider;
 
-			uint32_t     		VersionMajor;
-			uint32_t         	VersionMinor;
+			uint32_t     		VersionMajor = 0;
+			uint32_t         	VersionMinor = 0;
 
 			std::vector<MVR_COMMIT_MESSAGE> InitialFiles;
 
 			// Internal
 			std::vector<MVRxchangeString> IPv4_list;
 			std::vector<MVRxchangeString> IPv6_list;
-			uint16_t         Port;
+			uint16_t         Port = 0;
 
 		};
 
-- 
2.43.0


From 6ed191b2503d21b8fcd443bcf62f971f94267600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 48/60] fix: the archive reader starts with defined numbers
 when an archive ends early

---
 src/Interface/IZIPFile.h    | 26 +++++++++++++-------------
 src/Wrapper/ZIPFileBuffer.h |  2 +-
 src/Wrapper/ZIPFileImpl.cpp | 12 ++++++------
 src/Wrapper/ZIPFileImpl.h   | 16 ++++++++--------
 4 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/Interface/IZIPFile.h b/src/Interface/IZIPFile.h
index 2cf35e1..6821325 100644
--- a/src/Interface/IZIPFile.h
+++ b/src/Interface/IZIPFile.h
@@ -19,19 +19,19 @@ namespace VectorworksMVR
 			TXString	fFileName;
 			TXString	fComment;
 		
-			Uint16		dwVersion;  
-			Uint32		dwVersionNeeded;
-			Uint16		dwFlags;	 
-			Uint16		dwCompressionMethod; 
-			Uint16		dwDosTime;
-			Uint16		dwDosDate;	
-			Uint32		dwCRC;   
-			Uint32		dwCompressedSize; 
-			Uint32		dwUncompressedSize;
-			Uint16		dwInternalAttrib; 
-			Uint32		dwExternalAttrib; 
-			Uint32		dwOffsetOfLocalHeader;
-			bool		bFolder;
+			Uint16		dwVersion = 0;  
+			Uint32		dwVersionNeeded = 0;
+			Uint16		dwFlags = 0;	 
+			Uint16		dwCompressionMethod = 0; 
+			Uint16		dwDosTime = 0;
+			Uint16		dwDosDate = 0;	
+			Uint32		dwCRC = 0;   
+			Uint32		dwCompressedSize = 0; 
+			Uint32		dwUncompressedSize = 0;
+			Uint16		dwInternalAttrib = 0; 
+			Uint32		dwExternalAttrib = 0; 
+			Uint32		dwOffsetOfLocalHeader = 0;
+			bool		bFolder = false;
 		};
 
 		// ----------------------------------------------------------------------------------------------------
diff --git a/src/Wrapper/ZIPFileBuffer.h b/src/Wrapper/ZIPFileBuffer.h
index 83b62ec..86c8ec6 100644
--- a/src/Wrapper/ZIPFileBuffer.h
+++ b/src/Wrapper/ZIPFileBuffer.h
@@ -29,7 +29,7 @@ namespace VectorworksMVR
 			Uint64						fZIPFileBufferSize;
 			Uint64						fAllocatedMemorySize;
 			VCOMPtr<IFileIdentifier>	fpOpenedFileID;
-			bool						fOpenForRead;
+			bool						fOpenForRead = false;
 
 		};
 
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 5d1f013..9baae9d 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -274,7 +274,7 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ) + fileNameLength + extraFieldLength + fileCommentLength;
 	}
 
-	Uint32 signature;
+	Uint32 signature = 0;
 	this->ReadLong( signature, currentReadPosition );
 	if ( signature != kCentralDirSignature )
 		err =  kVCOMError_False;
@@ -348,7 +348,7 @@ VCOMError CZIPFileImpl::GetFileInfo(const std::string& path, SZIPFileInfo& outIn
 	Uint16 extraFieldLength		= 0;
 	Uint16 fileCommentLength	= 0;
 	Uint16 dummy;
-	Uint32 signature;
+	Uint32 signature = 0;
 
 	this->ReadLong( signature, currentReadPosition );
 	if ( signature != kCentralDirSignature )
@@ -1157,7 +1157,7 @@ void CZIPFileImpl::GetCentralDirPosition( Uint32& outPosition )
 			return;
 		for ( Uint32 readBytes = (Uint32)fileSize - kLongLength - 1; readBytes > 0; readBytes-- )
 		{
-			Uint32 currentLongValue;
+			Uint32 currentLongValue = 0;
 			Uint32 currentReadPos = readBytes;
 			this->ReadLong( currentLongValue, currentReadPos );
 			if ( (currentReadPos > readBytes) && currentLongValue == kEndSignature )
@@ -1210,7 +1210,7 @@ void CZIPFileImpl::GetFileLocalHeaderPosition( const std::string& path, Uint32&
 	bool bError = false;
 	while ( !bFound && !bError)
 	{
-		Uint32 signature;
+		Uint32 signature = 0;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
 			bError = true;
@@ -1263,7 +1263,7 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 	while ( !bFound && !bError )
 	{
 		Uint32 startOffset = (Uint32)currentReadPosition;
-		Uint32 signature;
+		Uint32 signature = 0;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
 			bError = true;
@@ -1308,7 +1308,7 @@ void CZIPFileImpl::GetZipArchiveInfo( SZIPArchiveInfo* zipArchiveInfo )
 	if ( endOfCentralDirPosition )
 	{
 		Uint32 currentReadPosition = endOfCentralDirPosition;
-		Uint32 longValue;
+		Uint32 longValue = 0;
 		this->ReadLong( longValue, currentReadPosition );
 		if ( longValue != kEndSignature )
 			return;
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 0bb7d35..e05fb1d 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -27,14 +27,14 @@ namespace VectorworksMVR
 		{
 			TXString fFileComment;
 
-			Uint16 dwNumberOfThisDisk;
-			Uint16 dwNumberOfCentralDirDisk;
-			Uint16 dwNumberOfEntriesOnThisDisk;
-			Uint16 dwTotalNumberOfEntries;
-			Uint32 dwSizeOfCentralDir;
-			Uint32 dwOffsetCentralDir;
-			Uint16 dwStartingDiskNumber;
-			Uint16 dwCommentLength;
+			Uint16 dwNumberOfThisDisk = 0;
+			Uint16 dwNumberOfCentralDirDisk = 0;
+			Uint16 dwNumberOfEntriesOnThisDisk = 0;
+			Uint16 dwTotalNumberOfEntries = 0;
+			Uint32 dwSizeOfCentralDir = 0;
+			Uint32 dwOffsetCentralDir = 0;
+			Uint16 dwStartingDiskNumber = 0;
+			Uint16 dwCommentLength = 0;
 		};
 
 		typedef std::vector<VectorworksMVR::Filing::SZIPFileInfo> TZIPFileInfoArray;
-- 
2.43.0


From e8af1bed069ae45ed249c9a1c58a60bc2b0de111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 49/60] fix: normalised vectors were read from temporaries that
 were gone

---
 src/VWPoint2D.cpp | 4 ++--
 src/VWPoint3D.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/VWPoint2D.cpp b/src/VWPoint2D.cpp
index 9119bdc..51932da 100644
--- a/src/VWPoint2D.cpp
+++ b/src/VWPoint2D.cpp
@@ -505,8 +505,8 @@ bool VWPoint2D::ArePointsCollinear(const VWPoint2D& pt0, const VWPoint2D& pt1, c
 	// get two vectors that will be checked for collinearity.
 	// since this is a direction test the vectors must be normalized.
 	// otherwise, if they differ greatly in length then the result becomes unstable.
-	const VWPoint2D&	vecA		= ( pt0 - pt1 ).Normalize();
-	const VWPoint2D&	vecB		= ( pt2 - pt1 ).Normalize();
+	const VWPoint2D		vecA		= ( pt0 - pt1 ).Normalize();
+	const VWPoint2D		vecB		= ( pt2 - pt1 ).Normalize();
 
 	double				crossLen	= vecA.CrossProductMagnitude( vecB );
 	if ( MathUtils::Equalish( crossLen, 0.0, dEpsilon ) )
diff --git a/src/VWPoint3D.cpp b/src/VWPoint3D.cpp
index 1f61652..487fc55 100644
--- a/src/VWPoint3D.cpp
+++ b/src/VWPoint3D.cpp
@@ -343,7 +343,7 @@ bool VWPoint3D::IsOnPlane(const VWPoint3D& planePt, const VWPoint3D& planeVec0,
 	bool				isOn		= false;
 
 	// get the normalized cross product of the two plane vectors.
-	const VWPoint3D&	planeNorm	= ( planeVec0 * planeVec1 ).Normalize();
+	const VWPoint3D		planeNorm	= ( planeVec0 * planeVec1 ).Normalize();
 
 	// get the vector (planePt -> point).
 	VWPoint3D			vec			= ( ( *this ) - planePt );
@@ -586,8 +586,8 @@ bool VWPoint3D::ArePointsCollinear(const VWPoint3D& pt0, const VWPoint3D& pt1, c
 	// get two vectors that will be checked for collinearity.
 	// since this is a direction test the vectors must be normalized.
 	// otherwise, if they differ greatly in length then the result becomes unstable.
-	const VWPoint3D&	vecA		= ( pt0 - pt1 ).Normalize();
-	const VWPoint3D&	vecB		= ( pt2 - pt1 ).Normalize();
+	const VWPoint3D		vecA		= ( pt0 - pt1 ).Normalize();
+	const VWPoint3D		vecB		= ( pt2 - pt1 ).Normalize();
 
 	// get cross product: normal vector to plane defined by the two vectors above.
 	const VWPoint3D&	normalVec	= vecA.Cross( vecB );
-- 
2.43.0


From a0f616f2b37637619b57a6bcdde7f202422861e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 50/60] fix: macros followed a null out pointer when it held an
 object already

---
 src/Implementation/CGdtfMacro.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Implementation/CGdtfMacro.cpp b/src/Implementation/CGdtfMacro.cpp
index 05f2f46..a4684b6 100644
--- a/src/Implementation/CGdtfMacro.cpp
+++ b/src/Implementation/CGdtfMacro.cpp
@@ -75,7 +75,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfMacroImpl::GetChannelFunction(IGd
 	if ( *outChannelFunction)
 	{
 		(*outChannelFunction)->Release();
-		outChannelFunction = NULL;
+		*outChannelFunction = NULL;
 	}
 	
 	//---------------------------------------------------------------------------
@@ -270,7 +270,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfMacroImpl::GetMacroVisual(IGdtfMa
 	if ( *outMacroVisual)
 	{
 		(*outMacroVisual)->Release();
-		 outMacroVisual = NULL;
+		 *outMacroVisual = NULL;
 	}
 	
 	//---------------------------------------------------------------------------
-- 
2.43.0


From 80503c16c4e97ba2271d78021c053faf5b3aee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 51/60] fix: CreateConnection leaked its object when nobody
 asked for it

---
 src/Implementation/CSceneObjImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 553d235..087aff3 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1531,6 +1531,10 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::CreateConnection(MvrStr
 		// Set Out Value
 		*addedObj = pConnectionImpl;
 	}
+	else if (pConnectionImpl)
+	{
+		pConnectionImpl->Release();
+	}
 	return kVCOMError_NoError;
 }
 
-- 
2.43.0


From cf20532729c9bb17ef129e3c69f7aaadece6ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 52/60] fix: colour rendering getters dropped the object in the
 out pointer without releasing it

---
 src/Implementation/CGdtfCRIGroup.cpp | 2 ++
 src/Implementation/CGdtfFixture.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/Implementation/CGdtfCRIGroup.cpp b/src/Implementation/CGdtfCRIGroup.cpp
index 87f9b50..7f5dc84 100644
--- a/src/Implementation/CGdtfCRIGroup.cpp
+++ b/src/Implementation/CGdtfCRIGroup.cpp
@@ -47,6 +47,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfCRIGroupImpl::GetCRICount(size_t
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfCRIGroupImpl::GetCRIAt(size_t at, VectorworksMVR::IGdtfCRI** value)
 {
     if (!value) { return kVCOMError_InvalidArg; }
+    if (*value) { (*value)->Release(); }
     *value = nullptr;
 
     // Check if Set
@@ -104,6 +105,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfCRIGroupImpl::GetCRIAt(size_t at,
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfCRIGroupImpl::CreateCRI(EGdtfColorSample ces, Sint32 colorTemp, VectorworksMVR::IGdtfCRI **outVal)
 {
     if (!outVal) { return kVCOMError_InvalidArg; }
+    if (*outVal) { (*outVal)->Release(); }
     *outVal = nullptr;
 
     // Check if Set
diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 30bb1cb..e9274d0 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -2235,6 +2235,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::GetCRIGroupCount(siz
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::GetCRIGroupAt(size_t at, VectorworksMVR::IGdtfCRIGroup** value)
 {
     if (!value) { return kVCOMError_InvalidArg; }
+    if (*value) { (*value)->Release(); }
     *value = nullptr;
 
     // Check if Set
@@ -2293,6 +2294,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::GetCRIGroupAt(size_t
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::CreateCRIGroup(double colorTemp, VectorworksMVR::IGdtfCRIGroup **outVal)
 {
     if (!outVal) { return kVCOMError_InvalidArg; }
+    if (*outVal) { (*outVal)->Release(); }
     *outVal = nullptr;
 
     // Check if Set
-- 
2.43.0


From 7b06d7b003c068071627569daea2bf4d0501ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 53/60] fix: a stopped folder enumeration leaked the entry it
 stopped at

---
 src/Wrapper/FolderIdentifier.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Wrapper/FolderIdentifier.cpp b/src/Wrapper/FolderIdentifier.cpp
index fcfa3c2..e657a5e 100644
--- a/src/Wrapper/FolderIdentifier.cpp
+++ b/src/Wrapper/FolderIdentifier.cpp
@@ -666,6 +666,10 @@ bool CFolderIdentifier::EnumerateContentsHandler(IFolderContentListener* pListen
 								pFolderInst->SetFullPath( fullPath );
 
 								EFolderContentListenerResult result = pListener->OnFolderContent( pFolderID );
+								if ( result == eFolderContentListenerResult_StopNoError || result == eFolderContentListenerResult_StopError )
+								{
+									pFolderID->Release();
+								}
 								if ( result == eFolderContentListenerResult_StopNoError )
 								{
 									outError		= kVCOMError_Failed;
@@ -706,6 +710,10 @@ bool CFolderIdentifier::EnumerateContentsHandler(IFolderContentListener* pListen
 								pFileInst->SetFileFullPath( fullPath );
 
 								EFolderContentListenerResult result = pListener->OnFileContent( pFileID );
+								if ( result == eFolderContentListenerResult_StopNoError || result == eFolderContentListenerResult_StopError )
+								{
+									pFileID->Release();
+								}
 								if ( result == eFolderContentListenerResult_StopNoError ) {
 									outError		= kVCOMError_NoError;
 									bStop			= true;
-- 
2.43.0


From cfd7fc81f2c3e520815734853b8ccd57f2ed3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:34 +0000
Subject: [PATCH 54/60] fix: XML files and nodes were never deleted

---
 src/rapidxmlsupport/XMLFileImpl.cpp     | 2 +-
 src/rapidxmlsupport/XMLFileNodeImpl.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rapidxmlsupport/XMLFileImpl.cpp b/src/rapidxmlsupport/XMLFileImpl.cpp
index 1c04d1c..440abe3 100644
--- a/src/rapidxmlsupport/XMLFileImpl.cpp
+++ b/src/rapidxmlsupport/XMLFileImpl.cpp
@@ -210,7 +210,7 @@ uint32_t CXMLFileImpl::Release()
 
 		// mechanizm for immediate delete of the interface instance
 		if ( fRefCnt == 0 ) {
-			// ::GS_VWNotifyDeleteInterface( this ); TODO
+			delete this;
 			// EXIT IMMEDIATELY! 'this' no longer exist!!!
 			return 0;
 		}
diff --git a/src/rapidxmlsupport/XMLFileNodeImpl.cpp b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
index ed61d0a..37827b4 100644
--- a/src/rapidxmlsupport/XMLFileNodeImpl.cpp
+++ b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
@@ -34,7 +34,7 @@ uint32_t CXMLFileNodeImpl::Release()
 
 		// mechanizm for immediate delete of the interface instance
 		if ( fRefCnt == 0 ) {
-			// ::GS_VWNotifyDeleteInterface( this ); TODO
+			delete this;
 			// EXIT IMMEDIATELY! 'this' no longer exist!!!
 			return 0;
 		}
-- 
2.43.0


From 8cde6794e4ecd6ac1b0b93a7ccaf5883f862e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:45 +0000
Subject: [PATCH 55/60] fix: asking a symbol reference for its geometry file
 treated the symbol as a geometry

---
 src/Implementation/CGeometryReferenceImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Implementation/CGeometryReferenceImpl.cpp b/src/Implementation/CGeometryReferenceImpl.cpp
index 915a49d..40984dd 100644
--- a/src/Implementation/CGeometryReferenceImpl.cpp
+++ b/src/Implementation/CGeometryReferenceImpl.cpp
@@ -35,6 +35,9 @@ MvrString VectorworksMVR::CGeometryReferenceImpl::GetFileForGeometry()
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr ) return nullptr;
 	
+	// Only a geometry has a file, a symbol refers to a symbol definition
+	if ( fIsSymbol ) { return ""; }
+	
 	// Do the actual cast
 	SceneData::SceneDataGeometryObjPtr geoObj = static_cast<SceneData::SceneDataGeometryObjPtr>(fPtr);
 	
-- 
2.43.0


From 79d704c99f257fa155b2149089374f8cd24eb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:45 +0000
Subject: [PATCH 56/60] fix: any scene object was accepted as the focus point
 of a fixture

---
 src/Implementation/CSceneObjImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 087aff3..16551bf 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1561,6 +1561,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::SetFocusPoint(ISceneObj
 	SceneData::SceneDataObjWithMatrixPtr	scFpParent	= nullptr;
 	pFocusPoint->GetPointer(scFpParent, type);
 	
+	// Only a focus point can be set as focus point
+	if (type != ESceneObjType::FocusPoint) { return kVCOMError_InvalidArg; }
+	
 	SceneData::SceneDataFocusPointObjPtr scFocusPoint = static_cast<SceneData::SceneDataFocusPointObjPtr>(scFpParent);
 	
 	ASSERTN(kEveryone, scFocusPoint != nullptr);
-- 
2.43.0


From cc4f80e3f1f9b70eb8f21b689a237efc80aadf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:45 +0000
Subject: [PATCH 57/60] fix: a pin patch that names a geometry of another kind
 took it for a wiring object

---
 src/GDTFManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index f8f78a8..ec518fe 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8625,8 +8625,11 @@ void GdtfFixture::ResolveGeometryRefs_Recursive(GdtfGeometryPtr geometry)
 				if ( ! unresolvedWiringObject.IsEmpty())
 				{
 					GdtfGeometryPtr wiringObjectGeo = ResolveGeometryRef(unresolvedWiringObject, fGeometries);
-					GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
-					pinPatch->SetToWiringObject(toWiringObject);
+					if (wiringObjectGeo && wiringObjectGeo->GetObjectType() == eGdtfGeometryWiringObject)
+					{
+						GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
+						pinPatch->SetToWiringObject(toWiringObject);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 8934228e60124c0ed37ec7e3a8cdb3f63144c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:52 +0000
Subject: [PATCH 58/60] fix: closing a scene or fixture type reported success
 when the file could not be written

---
 src/Implementation/CGdtfFixture.cpp              |  4 ++--
 src/Implementation/CMediaRessourceVectorImpl.cpp |  2 +-
 src/SceneDataExchange.cpp                        |  5 +----
 src/Wrapper/RawOSFileimpl.cpp                    |  8 ++++++--
 src/Wrapper/ZIPFileBuffer.cpp                    | 16 ++++++++++++----
 src/Wrapper/ZIPFileImpl.cpp                      |  5 +++--
 6 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index e9274d0..48a8012 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -187,13 +187,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
 		
 	fFixtureObject->ExportToFile(fZipFile);
 	
-	fZipFile->Close();
+	VCOMError result = fZipFile->Close();
 
     FreeBuffer();
     fZipFile->ToBuffer(fBuffer, fBufferLength);
 	
 	// Read From File
-	return kVCOMError_NoError;
+	return result;
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileIdentifierPtr file, TXString gdtfFileName)
diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 06dbe2e..7c41698 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -982,7 +982,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::Close()
 	// Write Mode
 	if(fWriteMode)
 	{
-		fExchangeObj.WriteToFile(fPath);
+		if ( ! fExchangeObj.WriteToFile(fPath)) { return kVCOMError_Failed; }
 		return kVCOMError_NoError;
 	}
 	
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 2dbcd13..cd0add5 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3575,10 +3575,7 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 
 	//-------------------------------------------------------------------------------------------------
 	// Store the file on disk
-	zipfile->Close();
-	
-	
-	return true;
+	return VCOM_SUCCEEDED(zipfile->Close());
 }
 
 void SceneDataExchange::AddProviderAndProviderVersion(const TXString& provider, const TXString& providerVersion)
diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index 588e02d..d0d94f4 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -47,17 +47,21 @@ VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 
 VCOMError CRawOSFileImpl::Close()
 {
+	VCOMError result = kVCOMError_NoError;
+
 	if ( fTheFile )
 	{
 #ifdef _LINUX
 		fsync(fileno(fTheFile));
 #endif
-		std::fclose( fTheFile );
+		// What is still buffered is written now
+		if ( std::fclose( fTheFile ) != 0 )
+			result = kVCOMError_Failed;
 
 		fTheFile = NULL;
 	}
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CRawOSFileImpl::GetFileSize(Uint64& outValue)
diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index 0717e56..7137c6f 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -70,21 +70,29 @@ VCOMError ZIPFileBuffer::Open(const char* buffer, size_t length)
 
 VCOMError ZIPFileBuffer::Close()
 {
+	VCOMError result = kVCOMError_NoError;
+
 	if (!fOpenForRead && fpZIPFileBuffer)
 	{
+		// an archive without a path is only kept in memory
+		TXString fullPath;
+		fpOpenedFileID->GetFileFullPath(fullPath);
+		if (fullPath.IsEmpty()) { return kVCOMError_NoError; }
+
 		// prepare file
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(fpOpenedFileID, false, true, false, false);
+		result = file->Open(fpOpenedFileID, false, true, false, false);
+		if (VCOM_FAILED(result)) { return result; }
 
-		file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		result = file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
 
 		// close file
-		file->Close();
+		if (VCOM_FAILED(file->Close())) { result = kVCOMError_Failed; }
 	}
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 9baae9d..366cb4d 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -220,14 +220,15 @@ VCOMError CZIPFileImpl::OpenNewWrite(IFileIdentifier* pFileID, bool compressFile
 
 VCOMError CZIPFileImpl::Close()
 {
+	VCOMError result = kVCOMError_NoError;
 	if ( fpOpenedFile )
 	{
-		fpOpenedFile->Close();
+		result = fpOpenedFile->Close();
 		fbOpenedWrite		= false;
 		fOpenedFileFullPath = "";
 		fFolderPath			= "";
 	}
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CZIPFileImpl::ToBuffer(char*& p, size_t& inLength)
-- 
2.43.0


From 0a3ff580d2b0c27113ad6863a7b94f7c933528b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:52 +0000
Subject: [PATCH 59/60] fix: opening an MVR file that cannot be read reported
 success

---
 src/SceneDataExchange.cpp     |  2 +-
 src/Wrapper/ZIPFileBuffer.cpp | 19 +++++++++++++------
 src/Wrapper/ZIPFileImpl.cpp   |  4 ++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index cd0add5..0b9ba82 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3725,7 +3725,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	//-------------------------------------------------------------------------------------------------
 	// Create a ZIP File
 	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(file);
+	if (VCOM_FAILED(zipfile->OpenRead(file))) { return false; }
 	
 	// Prepare
     ISceneDataZipBuffer xmlFileBuffer;
diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index 7137c6f..f4b2bf0 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -36,18 +36,25 @@ VCOMError ZIPFileBuffer::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(pFileID, true, false, false, false);
+		VCOMError result = file->Open(pFileID, true, false, false, false);
+		if (VCOM_FAILED(result)) { return result; }
 
 		// get filesize
-		file->GetFileSize(fZIPFileBufferSize);
+		Uint64 fileSize = 0;
+		result = file->GetFileSize(fileSize);
+		if (VCOM_FAILED(result)) { file->Close(); return result; }
+
 		// load in buffer
-		fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
-		fAllocatedMemorySize = fZIPFileBufferSize;
-		Uint64 readSize      = fZIPFileBufferSize;
-		file->Read(0, readSize, fpZIPFileBuffer);
+		fpZIPFileBuffer      = new Uint8[fileSize];
+		fAllocatedMemorySize = fileSize;
+		fZIPFileBufferSize   = fileSize;
+		Uint64 readSize      = fileSize;
+		result               = file->Read(0, readSize, fpZIPFileBuffer);
 
 		// close file
 		file->Close();
+
+		if (VCOM_FAILED(result)) { return result; }
 	}
 
 	return kVCOMError_NoError ;
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 366cb4d..c828e35 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -145,7 +145,7 @@ VCOMError CZIPFileImpl::OpenRead(IFileIdentifier* pFileID)
 	fbOpenedWrite		= false;
 
 	fpOpenedFile = new ZIPFileBuffer();
-	fpOpenedFile->Open( pFileID, true );
+	VCOMError result = fpOpenedFile->Open( pFileID, true );
 	fpOpenedFileID = pFileID;
 
 	IFolderIdentifierPtr pFolderID( IID_FolderIdentifier );
@@ -153,7 +153,7 @@ VCOMError CZIPFileImpl::OpenRead(IFileIdentifier* pFileID)
 	pFolderID->GetFullPath( fFolderPath );
 	pFileID->GetFileFullPath( fOpenedFileFullPath );
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CZIPFileImpl::OpenRead(const char* buffer, size_t length)
-- 
2.43.0


From 6c7ed96a461d06e1c08caae89a2035d82e6b6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:52 +0000
Subject: [PATCH 60/60] fix: errors while a fixture type file is read were
 ignored

---
 src/Implementation/CGdtfFixture.cpp | 10 +++++-----
 src/Wrapper/RawOSFileimpl.cpp       | 12 ++++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 48a8012..5892978 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -203,13 +203,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileId
     if(VCOM_SUCCEEDED(rawFile->Open(file, true, false, false, false)))
     {
         Uint64 size = 0;
-        rawFile->GetFileSize(size);
-        
-        if(size > 0)
+        if(VCOM_SUCCEEDED(rawFile->GetFileSize(size)) && size > 0)
         {
             char* tempBuffer = new char[size + 1];
-            rawFile->Read(0, size, tempBuffer);
-            retVal = FromBufferInternal(tempBuffer, size, gdtfFileName);
+            if(VCOM_SUCCEEDED(rawFile->Read(0, size, tempBuffer)))
+            {
+                retVal = FromBufferInternal(tempBuffer, size, gdtfFileName);
+            }
             delete[] tempBuffer;
         }
         rawFile->Close();
diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index d0d94f4..281d029 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -75,8 +75,12 @@ VCOMError CRawOSFileImpl::GetFileSize(Uint64& outValue)
 	// we dont care about chaning the position as this class requires possition when reading/writing
 	if ( std::fseek( fTheFile, 0, SEEK_END ) == 0 )
 	{
-		outValue = std::ftell( fTheFile );
-		result = kVCOMError_NoError;
+		long size = std::ftell( fTheFile );
+		if ( size >= 0 )
+		{
+			outValue = size;
+			result = kVCOMError_NoError;
+		}
 	}
 
 	return result;
@@ -95,8 +99,8 @@ VCOMError CRawOSFileImpl::Read(Uint64 position, Uint64& inoutSize, void* pOutBuf
 		ASSERTN(kEveryone, read == inoutSize);
 
 		inoutSize = read;
-		return kVCOMError_NoError;
-		
+		if ( std::ferror( fTheFile ) == 0 )
+			result = kVCOMError_NoError;
 	}
 
 	return result;
-- 
2.43.0

