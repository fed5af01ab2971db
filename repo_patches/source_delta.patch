From d332eb6df3dbdbc28af2a5e3fe72be2dc577b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 01/53] fix: validate DOM insert/replace fully before changing
 the tree, keep documentElement/doctype in step

---
 include/DOM/Simple/DocumentImpl.hpp | 21 +++++++++++++---
 include/DOM/Simple/NodeImpl.hpp     | 38 ++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..8d016fa 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -394,8 +394,15 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
     {
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0))
+      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0) && (newChild != documentElement_))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+      {
+        int elements = (documentElement_ != 0) ? 1 : 0;
+        for(DOMNode_implT* child = newChild->getFirstChild(); child != 0; child = child->getNextSibling())
+          if((child->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (++elements > 1))
+            throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      } // if ...
       if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
@@ -413,18 +420,24 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     {
       checkChildType(newChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
+      if((documentType_ != 0) && (documentType_ == oldChild))
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
          (documentElement_ != 0) &&
+         (documentElement_ != newChild) &&
          (documentElement_ != oldChild))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      else if(documentElement_ == oldChild)
+        documentElement_ = 0;
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..d1fc3c4 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -392,12 +392,19 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        checkCanAddFragment(newChild);
+        if(refChild)
+          findChild(refChild);
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
           insertBefore(newChild->removeChild(child), refChild);
         return newChild;
       } // if ...
 
       checkCanAdd(newChild);
+      if(refChild)
+        findChild(refChild);
+      if(refChild == newChild)
+        return newChild;
       removeIfRequired(newChild);
       if(refChild)
       {
@@ -433,14 +440,16 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
-        // not exception safe - but the it's not specified to be :(
-        DOMNode_implT* lc = newChild->getLastChild();
-        replaceChild(newChild->removeChild(lc), oldChild);
-        insertBefore(newChild, lc);
+        checkCanAddFragment(newChild);
+        insertBefore(newChild, oldChild);
+        removeChild(oldChild);
         return oldChild;
       } // if ...
 
       checkCanAdd(newChild);
+      findChild(oldChild);
+      if(newChild == oldChild)
+        return oldChild;
       removeIfRequired(newChild);
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
@@ -519,17 +528,11 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       DocumentImplT* childDoc = child->getOwnerDoc();
       if(childDoc == 0)
       {
+        checkChildType(child);
         child->setOwnerDoc(NodeImplT::getOwnerDoc());
         return;
       } //
 
-      if(child->getNodeType() == DOM::Node_base::DOCUMENT_NODE)
-      {
-        if(childDoc != dynamic_cast<DocumentImplT*>(this))
-          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
-      } // if(parent is a Document)
-
       if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
         throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
 
@@ -540,6 +543,19 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       checkChildType(child);
     } // checkCanAdd
 
+    void checkCanAddFragment(NodeImplT* fragment)
+    {
+      if(NodeImplT::getOwnerDoc() && fragment->getOwnerDoc() != NodeImplT::getOwnerDoc())
+        throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
+
+      for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
+        if(n == fragment)
+          throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+
+      for(NodeImplT* child = fragment->getFirst(); child != 0; child = child->getNext())
+        checkCanAdd(child);
+    } // checkCanAddFragment
+
     virtual void checkChildType(DOMNode_implT* child) = 0;
 
     void markChanged()
-- 
2.43.0


From d41243ed654cdd86e4a702bb67c222efa328dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 02/53] fix: AttrMap checks arguments before changing them and
 clears ownerElement on removal

---
 include/DOM/Simple/AttrImpl.hpp         |  7 ++++
 include/DOM/Simple/AttrMap.hpp          | 48 ++++++++++++++++++++-----
 include/DOM/Simple/NamedNodeMapImpl.hpp |  8 +++++
 3 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..37a4b6c 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -160,6 +160,13 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       } // if(ownerDoc_)
     } // setOwnerElement
 
+    void clearOwnerElement()
+    {
+      ownerElement_ = 0;
+      if(NodeT::ownerDoc_)
+        NodeT::ownerDoc_->removeElementId(this);
+    } // clearOwnerElement
+
     void setSpecified(bool specified) { specified_ = specified; }
 
     bool isOrphaned()
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..aee85c2 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -37,25 +37,27 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     /////////////////////////////////////////////////////
     virtual DOMNode_implT* setNamedItem(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkIsAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
+      DOMNode_implT* replaced = disowned(NamedNodeMapImplT::setNamedItem(attr));
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return replaced;
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
+      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItem(name));
       createDefault(name);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
+      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
       createDefault(namespaceURI, localName);
       return n;
     } // removedNamedItemNS   
@@ -70,9 +72,16 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMNode_implT* existing = NamedNodeMapImplT::getNamedItem(name);
+      if(existing)
+      {
+        existing->setNodeValue(value);
+        return;
+      } // if ...
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
-      a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
+      a->setOwnerElement(ownerElement_);
     } // setAttribute
 
     void removeAttribute(const stringT& name)    
@@ -94,7 +103,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      NamedNodeMapImplT::throwIfReadOnly();
+      disowned(NamedNodeMapImplT::removeItem(oldAttr));
+      createDefault(oldAttr->getNodeName());
       return oldAttr;
     } // removeAttributeNode
 
@@ -106,13 +117,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
                                        namespaceURI, 
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
       a->setValue(value);
+      disowned(NamedNodeMapImplT::setNamedItemNS(a));
       a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItemNS(a);
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -132,13 +144,15 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     virtual DOMNode_implT* setNamedItemNS(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkIsAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
+      DOMNode_implT* replaced = disowned(NamedNodeMapImplT::setNamedItemNS(attr));
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return replaced;
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -215,6 +229,22 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return 0;
     } // getDefaultAttrs
 
+    AttrImplT* checkIsAttr(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(!attr)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      return attr;
+    } // checkIsAttr
+
+    DOMNode_implT* disowned(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(attr)
+        attr->clearOwnerElement();
+      return node;
+    } // disowned
+
     bool alreadyHere(AttrImplT* attr)
     {
       return ((!attr->isOrphaned()) && (attr->getOwnerElement() == ownerElement_));
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..52fdd00 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -169,6 +169,14 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
         throw DOM::DOMException(DOM::DOMException::NO_MODIFICATION_ALLOWED_ERR);
     } // throwIfReadOnly
 
+    NodeImplT* removeItem(const DOMNode_implT* arg)
+    {
+      typename NodeListT::iterator n = nodes_.begin();
+      while(n != nodes_.end() && static_cast<const DOMNode_implT*>(*n) != arg)
+        ++n;
+      return removeNode(n);
+    } // removeItem
+
     void checkOwnerDocument(const DOMNode_implT* arg)
     { 
       if(!ownerDoc_)
-- 
2.43.0


From 3521c768acdbdaada840bd1bfd2759718a994903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 03/53] fix: attribute values, live element lists,
 getElementById and detached splitText follow later changes

---
 include/DOM/Simple/AttrImpl.hpp         | 45 +++----------------------
 include/DOM/Simple/CDATASectionImpl.hpp |  6 +++-
 include/DOM/Simple/DocumentImpl.hpp     | 15 ++++++---
 include/DOM/Simple/ElementByTagImpl.hpp | 10 +++---
 include/DOM/Simple/ElementNSImpl.hpp    |  2 ++
 include/DOM/Simple/NamedNodeMapImpl.hpp |  3 +-
 include/DOM/Simple/TextImpl.hpp         |  2 ++
 7 files changed, 31 insertions(+), 52 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index 37a4b6c..8d1a67d 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -29,8 +29,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         NodeImplWithChildren<stringT, string_adaptorT>(ownerDoc),
         name_(ownerDoc->stringPool(name)),
         ownerElement_(0),
-        specified_(true),
-        valueCalculated_(false)
+        specified_(true)
     {
     } // AttrImpl
 
@@ -39,8 +38,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         NodeImplWithChildren<stringT, string_adaptorT>(ownerDoc),
         name_(ownerDoc->stringPool(name)),
         ownerElement_(0),
-        specified_(true),
-        valueCalculated_(false)
+        specified_(true)
     {
       setNodeValue(value);
     } // AttrImpl
@@ -75,36 +73,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     virtual DOMNode_implT* getPreviousSibling() const { return 0; }
     virtual DOMNode_implT* getNextSibling() const { return 0; }
 
-    virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::insertBefore(newChild, refChild);
-    } // insertBefore
-
-    virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
-    { 
-      valueCalculated_ = false;
-      return NodeT::replaceChild(newChild, oldChild);
-    } // replaceChild
-
-    virtual DOMNode_implT* removeChild(DOMNode_implT* oldChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::removeChild(oldChild);
-    } // removeChild
-
-    virtual DOMNode_implT* appendChild(DOMNode_implT* newChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::appendChild(newChild);
-    } // appendChild
-
-    virtual void purgeChild(DOMNode_implT* oldChild)
-    {
-      valueCalculated_ = false;
-      NodeT::purgeChild(oldChild);
-    } // purgeChild
-
     virtual DOMNode_implT* cloneNode(bool /*deep*/) const
     {
       AttrImpl* a = dynamic_cast<AttrImpl*>(NodeT::ownerDoc_->createAttribute(*name_));
@@ -120,11 +88,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     virtual const stringT& getNodeValue() const
     {
-      if(!valueCalculated_)
-      {
-        value_ = concatNodes(NodeT::getFirstChild());
-        valueCalculated_ = true;
-      }
+      // a child's text can change without this node being told
+      value_ = concatNodes(NodeT::getFirstChild());
       return value_;
     } // getNodeValue
 
@@ -139,7 +104,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       // add a new text node
       NodeT::appendChild(NodeT::ownerDoc_->createTextNode(data));
 
-      valueCalculated_ = false;
       specified_ = true;
     } // setNodeValue
 
@@ -208,7 +172,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     stringT const* name_;
     ElementImplT* ownerElement_;
     bool specified_;
-    mutable bool valueCalculated_;
     mutable stringT value_;
 }; // class AttrImpl
 
diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..57a8224 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -35,7 +35,11 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      DOM::Node_impl<stringT, string_adaptorT>* parent = CharacterDataImplT::getParentNode();
+      if(parent)
+        parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      else
+        CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 8d016fa..b873a85 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -369,10 +369,17 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMElement_implT* getElementById(const stringT& elementId) const
     {
-      typename std::set<AttrImplT*>::const_iterator i = std::find_if(idNodes_.begin(), idNodes_.end(), valueIs<stringT, string_adaptorT>(elementId));
-      if(i == idNodes_.end())
-        return 0;
-      return (*i)->getOwnerElement();
+      for(typename std::set<AttrImplT*>::const_iterator i = idNodes_.begin(); i != idNodes_.end(); ++i)
+        if((*i)->getNodeValue() == elementId)
+        {
+          // the element must still be part of this document
+          DOMNode_implT* n = (*i)->getOwnerElement();
+          while(n != 0 && n != static_cast<const DOMNode_implT*>(this))
+            n = n->getParentNode();
+          if(n != 0)
+            return (*i)->getOwnerElement();
+        } // if ...
+      return 0;
     } // getElementById
 
     ////////////////////////////////////////////////////////
diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..f956b2f 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
@@ -106,7 +106,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     {
       if(useNamespace_)
       {
-        if((node->hasNamespaceURI() && namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
+        if((namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
         {
           if((tagName_ == node->getLocalName()) || (allNames_ && node->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE))
             nodes_.push_back(node);
@@ -135,7 +135,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     bool useNamespace_;
     bool allNamespaces_;
     bool allNames_;
-    mutable unsigned int changes_;
+    mutable unsigned long changes_;
     unsigned int refCount_;
 }; // class ElementByTagList
 
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..f5bbd8c 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -78,6 +78,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
@@ -89,6 +90,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 52fdd00..24977c2 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,7 +138,8 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
-      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
+      const stringT& localName = string_adaptorT::empty(arg->getLocalName()) ? arg->getNodeName() : arg->getLocalName();
+      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), localName), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..5b66148 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -39,6 +39,8 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
+      else
+        CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       return splitNode;
     } // splitText
 
-- 
2.43.0


From 490c14e2d92e90af4b6cb9d1bab17a805e726bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 04/53] fix: a shallow document clone has no doctype child, a
 deep one keeps it in place

---
 include/DOM/Simple/DocumentImpl.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index b873a85..e668eee 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -469,17 +469,16 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     virtual DOMNode_implT* cloneNode(bool deep) const
     {
       DocumentImpl* clone = new DocumentImpl(namespaceURI_, qualifiedName_, 0, domImplementation_);
-      if(documentType_ != 0)
-      {
-        DocumentTypeImpl<stringT, string_adaptorT>* dt = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(documentType_->cloneNode(true));
-        dt->setOwnerDoc(clone);
-        clone->appendChild(dt);
-      }
-
       if(deep)
         for(DOMNode_implT* child = NodeWithChildrenT::getFirstChild(); child != 0; child = child->getNextSibling())
-          if((documentType_ != child) && (child != clone->getDocumentElement()))
+          if(documentType_ != child)
             clone->appendChild(clone->importNode(child, true));
+          else
+          {
+            DocumentTypeImpl<stringT, string_adaptorT>* dt = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(documentType_->cloneNode(true));
+            dt->setOwnerDoc(clone);
+            clone->appendChild(dt);
+          } // if ...
 
       return clone;
     } // cloneNode
-- 
2.43.0


From a9c2fc9fa54c356b6d389a764160aecee9f40c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 05/53] fix: TreeWalker nextSibling, previousNode and
 parentNode follow DOM Traversal

---
 include/DOM/Traversal/TreeWalkerImpl.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..cf6930c 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -89,7 +89,7 @@ public:
 
   node_t nextSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
+    node_t n = getNextSiblingImpl(currentNode_);
     if(n != 0)
       currentNode_ = n;
     return n;
@@ -100,13 +100,14 @@ public:
     node_t n = getPreviousSiblingImpl(currentNode_);
     if(n != 0)
     {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
+      for(node_t last_child = getLastChildImpl(n); last_child != 0; last_child = getLastChildImpl(n))
+        n = last_child;
+      currentNode_ = n;
+      return n;
     }
     else
     {
-      n = getParentNodeImpl(n);
+      n = getParentNodeImpl(currentNode_);
       if(n != 0)
         currentNode_ = n;
       return n;
@@ -155,7 +156,7 @@ protected:
       return empty_node();
 
     node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
+    if (new_node == 0)
       return empty_node();
 
     filter_result_t accept = acceptNode(new_node);
-- 
2.43.0


From ab0c3be8b04bd68296b8871854ab50ee560e3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 06/53] fix: SAX2DOM and TextCoalescer keep no state between
 parses, DTD comments and PIs stay out of the tree

---
 include/DOM/SAX2DOM/SAX2DOM.hpp      | 23 ++++++++++++++++-------
 include/SAX/filter/TextCoalescer.hpp | 21 ++++++++++++++++++++-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..dba8c66 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -99,6 +99,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       DOM::DOMImplementation<stringT, string_adaptorT> di = Arabica::SimpleDOM::DOMImplementation<stringT, string_adaptorT>::getDOMImplementation();
       document_ = di.createDocument(string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), 0);
       currentNode_ = document_;
+      cachedCurrent_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
       inCDATA_ = false;
       inDTD_ = false;
       inEntity_ = 0;
@@ -112,6 +115,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
       parser.setLexicalHandler(*this);
       parser.setDeclHandler(*this);
+      parser.setDTDHandler(*this);
 
       setParserFeatures(parser);
 
@@ -248,7 +252,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -303,7 +307,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void startEntity(const stringT& name)
     {
-      if(currentNode_ == 0)
+      if(inDTD_ == true)
         return;
 
       if(++inEntity_ == 1)
@@ -317,10 +321,11 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endEntity(const stringT& name)
     {
-      if(--inEntity_ == 0)
-        currentNode_ = cachedCurrent_;
+      if(inDTD_ == true || --inEntity_ != 0)
+        return;
 
-      if(this->dtd_pseudo_entity == name)
+      currentNode_ = cachedCurrent_;
+      if(currentNode_ == 0)
         return;
 	  
 	  const EntityT* declared = declaredEntities_[name];
@@ -347,7 +352,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
@@ -382,13 +387,15 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
+      static const stringT AMPERSAND = string_adaptorT::construct_from_utf8("&");
 
       EntityT* entity = new EntityT(0, name, string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity));
       documentType_->addEntity(entity);
       DOM::Node<stringT, string_adaptorT> n = entity;
 
-      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos())
+      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos() &&
+         string_adaptorT::find(value, AMPERSAND) == string_adaptorT::npos())
       {
         n.appendChild(document_.createTextNode(value));
         return;
@@ -408,6 +415,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       parser.parse(is);       
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
+      if(entityDoc == 0) // isn't a balanced chunk of markup, or refers to other entities
+        return;
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
       DOM::Node<stringT, string_adaptorT> child = entityElem.getFirstChild();
       while(child != 0)
diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..e821112 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -34,6 +34,24 @@ public:
   {
   } // TextCoalescer
 
+  virtual void startDocument()
+  {
+    buffer_ = string_adaptor::empty_string(); // anything here is left over from a parse that failed
+    XMLFilterT::startDocument();
+  } // startDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
+  virtual void skippedEntity(const string_type& name)
+  {
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
@@ -101,8 +119,9 @@ private:
     if(string_adaptor::empty(buffer_))
       return;
 
-    XMLFilterT::characters(buffer_);
+    string_type text = buffer_;
     buffer_ = string_adaptor::empty_string();
+    XMLFilterT::characters(text);
   } // flush
 
   string_type buffer_;
-- 
2.43.0


From 9a8024d0e16d86893324340190ee86fc8330f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 07/53] fix: XPath axes, principal node types and document
 order for namespace and attribute nodes

The namespace axis ignored shadowing and undeclaring, was offered for non-elements
and freed its nodes twice when copied; attributes had children; following ran off
detached trees; Name and * tests ignored the axis' principal node type;
namespace nodes were duplicated in node-sets; fragments had no stable order.
---
 include/XPath/impl/xpath_axis_enumerator.hpp | 77 +++++++++++++++-----
 include/XPath/impl/xpath_node_test.hpp       | 42 ++++++-----
 include/XPath/impl/xpath_object.hpp          | 26 ++++++-
 include/XPath/impl/xpath_step.hpp            | 10 ++-
 4 files changed, 111 insertions(+), 44 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..f669fdd 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -324,7 +324,8 @@ public:
 
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
-    if(context != 0)
+    // an attribute's DOM children aren't part of the XPath data model
+    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
       BaseT::set(context->getFirstChild());
   } // ChildAxisWalker
 
@@ -426,7 +427,11 @@ public:
 
   virtual void advance()
   {
-    BaseT::set(BaseT::walkDown(BaseT::get(), BaseT::get()->getOwnerDocument()));
+    RawNodeT current = BaseT::get();
+    if(current == 0)
+      return;
+    RawNodeT child = current->getFirstChild();
+    BaseT::set(child != 0 ? child : nextAfter(current));
   } // advance
   virtual AxisWalker<string_type, string_adaptor>* clone() const { return new FollowingAxisWalker(*this); }
 
@@ -436,25 +441,36 @@ private:
     if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
     {
       RawNodeT owner = dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context)->getOwnerElement();
+      if(owner == 0)
+        return 0;
       if(owner->hasChildNodes())
         return owner->getFirstChild();
-      return firstFollowing(owner);
+      return nextAfter(owner);
     } // if attribute
 
-    RawNodeT next = BaseT::findNextSibling(context);
+    if(context->getNodeType() == NAMESPACE_NODE_TYPE)
+    {
+      RawNodeT owner = context->getParentNode();
+      if(owner->hasChildNodes())
+        return owner->getFirstChild();
+      return nextAfter(owner);
+    } // if namespace
 
-    if(next != 0)
-      return next;
-          
+    return nextAfter(context);
+  } // firstFollowing
+
+  // next node after context and its descendants, null at the end of the tree
+  RawNodeT nextAfter(const RawNodeT context) const
+  {
+    RawNodeT next = BaseT::findNextSibling(context);
     RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    while(parent != 0 && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
     } // while ...
-
     return next;
-  } // firstFollowing
+  } // nextAfter
 
   FollowingAxisWalker(const FollowingAxisWalker& rhs) : AxisWalker<string_type, string_adaptor>(rhs) { }
 }; // class FollowingAxisWalker
@@ -497,11 +513,12 @@ public:
     index_(0)
   {
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
       push_back(context, 
                 string_adaptor::construct_from_utf8("xml"), 
                 string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+
+    while(current != 0 && current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
@@ -513,6 +530,16 @@ public:
       } // for ...
       current = current->getParentNode();
     } // while
+    // a declaration hides those further out, and an empty one hides and declares nothing
+    for(typename std::vector<RawNodeT>::iterator i = list_.begin(); i != list_.end(); )
+      if(string_adaptor::empty((*i)->getNodeValue()))
+      {
+        (*i)->releaseRef();
+        i = list_.erase(i);
+      }
+      else
+        ++i;
+
     list_.push_back(0);
     BaseT::set(list_[index_]);
   } // NamespaceAxisWalker
@@ -534,12 +561,23 @@ public:
 private:
   void push_back(RawNodeT context, const string_type& prefix, const string_type& uri)
   {
+    for(typename std::vector<RawNodeT>::const_iterator i = list_.begin(), e = list_.end(); i != e; ++i)
+      if((*i)->getNodeName() == prefix)
+        return;
     RawNodeT node = new NamespaceNodeImpl<string_type, string_adaptor>(context, prefix, uri);
     node->addRef();
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : 
+    BaseT(rhs),
+    list_(rhs.list_),
+    xmlns_prefix_(rhs.xmlns_prefix_),
+    index_(rhs.index_)
+  { 
+    for(int i = 0; list_[i] != 0; ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
   std::vector<RawNodeT> list_;
   const string_type xmlns_prefix_;
   unsigned int index_;
@@ -584,10 +622,11 @@ public:
   
   PrecedingAxisWalker(const RawNodeT context) : BaseT(false)
   {
-    if(context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      firstPreceding(context);
-    else
-      firstPreceding((dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context))->getOwnerElement());
+    RawNodeT start = context;
+    if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
+      start = (dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context))->getOwnerElement();
+    if(start != 0)
+      firstPreceding(start);
   } // PrecedingAxisWalker
 
   virtual void advance()
@@ -630,8 +669,8 @@ private:
       return context;
 
     RawNodeT c = context->getFirstChild();
-    while(c->getNextSibling() != 0)
-      c = c->getNextSibling();
+    for(RawNodeT next = BaseT::findNextSibling(c); next != 0; next = BaseT::findNextSibling(c))
+      c = next; // adjacent text nodes are one XPath text node, represented by the first
 
     return getLastDescendant(c);
   } // getLastDescendant
diff --git a/include/XPath/impl/xpath_node_test.hpp b/include/XPath/impl/xpath_node_test.hpp
index a7de3a1..7b7e5d8 100644
--- a/include/XPath/impl/xpath_node_test.hpp
+++ b/include/XPath/impl/xpath_node_test.hpp
@@ -58,19 +58,19 @@ template<class string_type, class string_adaptor>
 class NameNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  NameNodeTest(const string_type& name) : name_(name) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NameNodeTest(name_); }
+  NameNodeTest(const string_type& name, DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : name_(name), principal_(principal) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NameNodeTest(name_, principal_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    int type = node.getNodeType();
-    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
+    return (node.getNodeType() == principal_) && 
            (name_ == node.getNodeName()) &&
            (string_adaptor::empty(node.getNamespaceURI()));
   } // test
 
 private:
   string_type name_;
+  DOM::Node_base::Type principal_;
 }; // NameNodeTest
 
 template<class string_type, class string_adaptor>
@@ -95,14 +95,13 @@ template<class string_type, class string_adaptor>
 class QNameNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  QNameNodeTest(const string_type& namespace_uri, const string_type& name) : 
-      uri_(namespace_uri), name_(name) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QNameNodeTest(uri_, name_); }
+  QNameNodeTest(const string_type& namespace_uri, const string_type& name, DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : 
+      uri_(namespace_uri), name_(name), principal_(principal) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QNameNodeTest(uri_, name_, principal_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    int type = node.getNodeType();
-    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
+    return (node.getNodeType() == principal_) && 
            (name_ == node.getLocalName()) &&
            (uri_ == node.getNamespaceURI());
   } // test
@@ -110,6 +109,7 @@ public:
 private:
   string_type uri_;
   string_type name_;
+  DOM::Node_base::Type principal_;
 }; // QNameNodeTest
 
 template<class string_type, class string_adaptor>
@@ -136,14 +136,17 @@ template<class string_type, class string_adaptor>
 class StarNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new StarNodeTest(); }
+  StarNodeTest(DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : principal_(principal) { }
+
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new StarNodeTest(principal_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    int type = node.getNodeType();
-    return (type == DOM::Node_base::ELEMENT_NODE ||
-            type == NAMESPACE_NODE_TYPE);
+    return node.getNodeType() == principal_;
   } // test
+
+protected:
+  DOM::Node_base::Type principal_;
 }; // class StarNodeTest
 
 template<class string_type, class string_adaptor>
@@ -151,8 +154,8 @@ class QStarNodeTest : public StarNodeTest<string_type, string_adaptor>
 {
   typedef StarNodeTest<string_type, string_adaptor> baseT;
 public:
-  QStarNodeTest(const string_type& namespace_uri) : baseT(), uri_(namespace_uri) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QStarNodeTest(uri_); }
+  QStarNodeTest(const string_type& namespace_uri, DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : baseT(principal), uri_(namespace_uri) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QStarNodeTest(uri_, baseT::principal_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
@@ -235,22 +238,23 @@ template<class string_type, class string_adaptor>
 class ProcessingInstructionNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  ProcessingInstructionNodeTest() : target_() { }
-  ProcessingInstructionNodeTest(const string_type& target) : target_(target) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new ProcessingInstructionNodeTest(target_); }
+  ProcessingInstructionNodeTest() : any_(true), target_() { }
+  ProcessingInstructionNodeTest(const string_type& target) : any_(false), target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return any_ ? new ProcessingInstructionNodeTest() : new ProcessingInstructionNodeTest(target_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
     if(node.getNodeType() != DOM::Node_base::PROCESSING_INSTRUCTION_NODE)
       return false;
 
-    if(string_adaptor::empty(target_))
+    if(any_)
       return true;
 
     return node.getNodeName() == target_;
   } // test
 
 private:
+  bool any_;
   string_type target_;
 }; // ProcessingInstructionNodeTest
 
diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..0aa968b 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -104,7 +104,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
@@ -164,6 +164,20 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
     return 1;
   if(r != re)
     return -1;
+
+  // namespace nodes are created as needed, so different objects can be the same node
+  if((lhs.getNodeType() == NAMESPACE_NODE_TYPE) && (rhs.getNodeType() == NAMESPACE_NODE_TYPE))
+  {
+    const string_type ln = lhs.getNodeName();
+    const string_type rn = rhs.getNodeName();
+    const string_type xml = string_adaptor::construct_from_utf8("xml"); // in every scope, and first
+    if(ln == rn)
+      return 0;
+    if(ln == xml || rn == xml)
+      return (ln == xml) ? -1 : 1;
+    return (ln < rn) ? -1 : 1;
+  } // if ...
+
   return 0;
 } // compareNodes
 
@@ -174,6 +188,14 @@ bool nodes_less_than(const DOM::Node<string_type, string_adaptor>& n1,
   return compareNodes(n1, n2) < 0; 
 } // nodes_less_than
 
+template<class string_type, class string_adaptor>
+bool same_node(const DOM::Node<string_type, string_adaptor>& n1, 
+               const DOM::Node<string_type, string_adaptor>& n2) 
+{ 
+  return (n1 == n2) || 
+         ((n1.getNodeType() == NAMESPACE_NODE_TYPE) && (n2.getNodeType() == NAMESPACE_NODE_TYPE) && (compareNodes(n1, n2) == 0));
+} // same_node
+
 } // namespace impl
 
 ///////////////////////////////////////////////////////////
@@ -280,7 +302,7 @@ public:
     else
       std::sort(nodes_.rbegin(), nodes_.rend(), impl::nodes_less_than<string_type, string_adaptor>);
 
-    nodes_.erase(std::unique(nodes_.begin(), nodes_.end()), nodes_.end());
+    nodes_.erase(std::unique(nodes_.begin(), nodes_.end(), impl::same_node<string_type, string_adaptor>), nodes_.end());
     sorted_ = true;
   } // sort
 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 3d35a7a..36c52d5 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -357,6 +357,8 @@ private:
                                         Axis axis, 
                                         const NamespaceContext<string_type, string_adaptor>& namespaceContext)
   {
+    const DOM::Node_base::Type principal = (axis == NAMESPACE) ? NAMESPACE_NODE_TYPE : DOM::Node_base::ELEMENT_NODE;
+
     long id = getNodeId<string_adaptor>(skipWhitespace<string_adaptor>(node));
 
     switch(id)
@@ -383,7 +385,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQNameNodeTest<string_type, string_adaptor>(uri, name);
           }
-          return new QNameNodeTest<string_type, string_adaptor>(uri, name);
+          return new QNameNodeTest<string_type, string_adaptor>(uri, name, principal);
         } //case QName_id
       
       case impl::NCName_id:
@@ -396,7 +398,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeNameNodeTest<string_type, string_adaptor>(name);
           }
-          return new NameNodeTest<string_type, string_adaptor>(name);
+          return new NameNodeTest<string_type, string_adaptor>(name, principal);
         } // case NameNodeTest
 
       case impl::Comment_id:
@@ -445,7 +447,7 @@ private:
           ++node;
           if(axis == ATTRIBUTE)
             return new AttributeNodeTest<string_type, string_adaptor>();
-          return new StarNodeTest<string_type, string_adaptor>();
+          return new StarNodeTest<string_type, string_adaptor>(principal);
         } // case AnyName_id:
 
       case impl::NameTest_id:
@@ -460,7 +462,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQStarNodeTest<string_type, string_adaptor>(uri);
           }
-          return new QStarNodeTest<string_type, string_adaptor>(uri);
+          return new QStarNodeTest<string_type, string_adaptor>(uri, principal);
         } // case 
     } // switch(id)
 
-- 
2.43.0


From cb8bcdef736307cf8e163fde63092478833c3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:13 +0000
Subject: [PATCH 08/53] fix: XPath number/string conversions, rounding, mod,
 comparisons and substring/translate edge cases follow the specification

---
 include/XPath/impl/xpath_arithmetic.hpp       |  4 +-
 .../XPath/impl/xpath_execution_context.hpp    |  2 +
 include/XPath/impl/xpath_function.hpp         |  6 +-
 include/XPath/impl/xpath_object.hpp           | 74 ++++++++++++++++---
 include/XPath/impl/xpath_value.hpp            | 10 +--
 5 files changed, 72 insertions(+), 24 deletions(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..441a2c1 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -66,9 +66,7 @@ struct NaN_aware_modulus
 {	
   double operator()(const double& lhs, const double& rhs) const
 	{	// apply operator% to operands 
-    if(isNaN(lhs) || isNaN(rhs)) 
-      return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+    return std::fmod(lhs, rhs);
 	}
 }; // NaN_aware_modulus
 
diff --git a/include/XPath/impl/xpath_execution_context.hpp b/include/XPath/impl/xpath_execution_context.hpp
index 47c25c7..f491f37 100644
--- a/include/XPath/impl/xpath_execution_context.hpp
+++ b/include/XPath/impl/xpath_execution_context.hpp
@@ -18,6 +18,8 @@ public:
       position_(-1), 
       last_(-1)
   { 
+    static const NullVariableResolver<string_type, string_adaptor> noVariables;
+    variableResolver_.set(noVariables);
   } // ExecutionContext
 
   ExecutionContext(size_t last, const ExecutionContext<string_type, string_adaptor>& parent) : 
diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..4575f44 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -472,9 +472,9 @@ protected:
       return string_adaptor::empty_string();
 
     double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
+    double endAt = (baseT::argCount() == 3) ? roundNumber(baseT::argAsNumber(2, context, executionContext)) + startAt : Infinity;
 
-    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
+    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)) || isNaN(startAt) || (startAt >= string_adaptor::length(value)))
       return string_adaptor::empty_string();
 
     if(startAt < 0)
@@ -543,7 +543,7 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 0aa968b..d044538 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -12,6 +12,10 @@
 #include <math>
 #endif
 #include <cmath>
+#include <cstdlib>
+#include <iomanip>
+#include <locale>
+#include <sstream>
 #include <Arabica/StringAdaptor.hpp>
 #include <text/normalize_whitespace.hpp>
 #include "xpath_axis_enumerator.hpp"
@@ -70,9 +74,9 @@ unsigned int node_child_position(const DOM::Node<string_type, string_adaptor>& n
       do
       {
         n = n.getPreviousSibling();
-        pos += 1000;
+        ++pos;
       } while(n != 0);
-      return pos;
+      return pos + 0x40000000; // after any attribute
     } // default
   } // switch ...
 } // node_child_position
@@ -430,10 +434,13 @@ inline double roundNumber(double value)
 { 
   if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
   {
-    if((value < 0.0) && (value > -0.5))
+    if((value < 0.0) && (value >= -0.5))
       value = -0.0;
     else
-      value = std::floor(value + 0.5);
+    {
+      double lower = std::floor(value);
+      value = (value - lower >= 0.5) ? lower + 1 : lower;
+    } // if ...
   } // if ...
   return value;
 } // roundNumber
@@ -442,13 +449,20 @@ template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
   try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
-    string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
-    // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
+    const std::string n_str = string_adaptor::asStdString(Arabica::text::normalize_whitespace<string_type, string_adaptor>(str));
+    // only '-'? (Digits ('.' Digits?)? | '.' Digits) is a number according to XPath spec
+    std::string::size_type i = (n_str.compare(0, 1, "-") == 0) ? 1 : 0;
+    std::string::size_type digits = 0;
+    for(bool point = false; i != n_str.length(); ++i)
+      if((n_str[i] >= '0') && (n_str[i] <= '9'))
+        ++digits;
+      else if((n_str[i] == '.') && !point)
+        point = true;
+      else
+        return NaN;
+    if(digits == 0)
       return NaN;
-    
+
     return boost::lexical_cast<double>(n_str);
   } // try
   catch(const boost::bad_lexical_cast&) {
@@ -456,6 +470,42 @@ double stringAsNumber(const string_type& str)
   } // catch
 } // stringAsNumber
 
+// decimal form, no exponent, as many digits as it takes to tell the number from all others
+inline std::string numberAsString(double value)
+{
+  if(isNaN(value))
+    return "NaN";
+  if(isInfinite(value))
+    return (value < 0) ? "-Infinity" : "Infinity";
+  if(value == 0)
+    return "0";
+
+  std::string digits;
+  for(int precision = 1; precision <= 17; ++precision)
+  {
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+    os << std::scientific << std::setprecision(precision - 1) << std::fabs(value);
+    digits = os.str();
+    if(std::strtod(digits.c_str(), 0) == std::fabs(value))
+      break;
+  } // for ...
+  const std::string::size_type e = digits.find('e');
+  const int exponent = std::atoi(digits.c_str() + e + 1);
+  digits.erase(e);
+  if(digits.length() > 1)
+    digits.erase(1, 1);
+  digits.erase(digits.find_last_not_of('0') + 1);
+
+  if(exponent < 0)
+    digits = "0." + std::string(-exponent - 1, '0') + digits;
+  else if(digits.length() <= static_cast<std::string::size_type>(exponent + 1))
+    digits.append(exponent + 1 - digits.length(), '0');
+  else
+    digits.insert(exponent + 1, ".");
+  return ((value < 0) ? "-" : "") + digits;
+} // numberAsString
+
 template<class string_type, class string_adaptor>
 bool nodeIsText(const DOM::Node<string_type, string_adaptor>& node)
 {
@@ -688,12 +738,16 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSetWith(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(rhs.type() == BOOL)
+    return Op()(lhs.asBool() ? 1.0 : 0.0, rhs.asNumber());
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   return std::find_if(lns.begin(), 
                       lns.end(), 
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..e3032a8 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -106,13 +106,7 @@ public:
   virtual double asNumber() const { return value_; }
   virtual string_type asString() const
   {
-    if(isNaN(value_)) 
-      return string_adaptor::construct_from_utf8("NaN");
-    if(isInfinity(value_))
-      return string_adaptor::construct_from_utf8("Infinity");
-    if(isNegativeInfinity(value_))
-      return string_adaptor::construct_from_utf8("-Infinity");
-    return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
+    return string_adaptor::construct_from_utf8(impl::numberAsString(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
 
@@ -167,7 +161,7 @@ public:
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& /* context */, 
 							   const ExecutionContext<string_type, string_adaptor>& /* executionContext */) const
   {
-    return XPathValue<string_type, string_adaptor>(this);
+    return createValue(set_);
   } // evaluate
 
   virtual bool asBool() const 
-- 
2.43.0


From ad6dc4f66d2721fb039bcd018cd21415de4022cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:43 +0000
Subject: [PATCH 09/53] fix: match patterns test predicates among the node's
 peers, '//' looks at every ancestor, and priorities follow XSLT 5.5

---
 include/XPath/impl/xpath_function.hpp        |  6 ++
 include/XPath/impl/xpath_function_holder.hpp |  6 ++
 include/XPath/impl/xpath_grammar.hpp         |  4 +-
 include/XPath/impl/xpath_match_rewrite.hpp   |  5 +-
 include/XPath/impl/xpath_node_test.hpp       | 42 ++++++-------
 include/XPath/impl/xpath_parser.hpp          | 66 ++++++++------------
 include/XPath/impl/xpath_step.hpp            | 50 +++++++++++++--
 7 files changed, 106 insertions(+), 73 deletions(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 4575f44..fe1dd1f 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -31,6 +31,12 @@ public:
 
   virtual ValueType type() const = 0;
 
+  void scan(impl::Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    for(size_t a = 0; a != args_.size(); ++a)
+      args_[a].get()->scan(scanner);
+  } // scan
+
   virtual XPathValue_impl<string_type, string_adaptor>* evaluate(const DOM::Node<string_type, string_adaptor>& context, 
                                             const ExecutionContext<string_type, string_adaptor>& executionContext) const = 0;
 
diff --git a/include/XPath/impl/xpath_function_holder.hpp b/include/XPath/impl/xpath_function_holder.hpp
index 6466a1e..c33f56e 100644
--- a/include/XPath/impl/xpath_function_holder.hpp
+++ b/include/XPath/impl/xpath_function_holder.hpp
@@ -131,6 +131,12 @@ public:
 
   virtual ValueType type() const { return func_->type(); }
 
+  virtual void scan(impl::Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    func_->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, 
                                               const ExecutionContext<string_type, string_adaptor>& executionContext) const
   {
diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 1b42f10..333dd2a 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -369,9 +369,9 @@ struct xpath_grammar_match : public boost::spirit::grammar<xpath_grammar_match>
       StepPattern = ChildOrAttributeAxisSpecifier >> (NodeMatchPattern|base::NodeTest) >> *base::Predicate;
 
       // [6] ChildOrAttributeAxisSpecifier ::= AbbreviatedAxisSpecifier | ('child' | 'attribute') '::'
-      ChildOrAttributeAxisSpecifier = ((base::Child | base::Attribute) >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
+      ChildOrAttributeAxisSpecifier = (discard_node_d[base::S] >> (base::Child | base::Attribute) >> discard_node_d[base::S] >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
 
-      NodeMatchPattern = str_p("node()");
+      NodeMatchPattern = token_node_d[base::S >> str_p("node") >> base::S >> ch_p('(') >> base::S >> ch_p(')')];
     } // definition
 
     boost::spirit::rule<ScannerT, boost::spirit::parser_tag<Pattern_id> > const&
diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
index 6cf156c..1207933 100755
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ b/include/XPath/impl/xpath_match_rewrite.hpp
@@ -26,8 +26,7 @@ public:
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, 
                                                            const ExecutionContext<string_type, string_adaptor>& executionContext) const 
   {
-    DOM::Node<string_type, string_adaptor> parent = context.getParentNode();
-    NodeSet<string_type, string_adaptor> nodes = test_->evaluateAsNodeSet(parent, executionContext);
+    NodeSet<string_type, string_adaptor> nodes = test_->evaluatePeers(context, executionContext);
     bool found = false;
     for(typename NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), ne = nodes.end(); 
         !found && (n != ne); ++n)
@@ -77,7 +76,7 @@ namespace impl
   template<class string_type, class string_adaptor>
   bool should_rewrite(XPathExpression_impl<string_type, string_adaptor>* expr) 
   {
-    if(expr->type() == NUMBER)
+    if((expr->type() == NUMBER) || (expr->type() == ANY))
       return true;
 
     PositionFnScanner<string_type, string_adaptor> scanner;
diff --git a/include/XPath/impl/xpath_node_test.hpp b/include/XPath/impl/xpath_node_test.hpp
index 7b7e5d8..a7de3a1 100644
--- a/include/XPath/impl/xpath_node_test.hpp
+++ b/include/XPath/impl/xpath_node_test.hpp
@@ -58,19 +58,19 @@ template<class string_type, class string_adaptor>
 class NameNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  NameNodeTest(const string_type& name, DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : name_(name), principal_(principal) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NameNodeTest(name_, principal_); }
+  NameNodeTest(const string_type& name) : name_(name) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NameNodeTest(name_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    return (node.getNodeType() == principal_) && 
+    int type = node.getNodeType();
+    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
            (name_ == node.getNodeName()) &&
            (string_adaptor::empty(node.getNamespaceURI()));
   } // test
 
 private:
   string_type name_;
-  DOM::Node_base::Type principal_;
 }; // NameNodeTest
 
 template<class string_type, class string_adaptor>
@@ -95,13 +95,14 @@ template<class string_type, class string_adaptor>
 class QNameNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  QNameNodeTest(const string_type& namespace_uri, const string_type& name, DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : 
-      uri_(namespace_uri), name_(name), principal_(principal) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QNameNodeTest(uri_, name_, principal_); }
+  QNameNodeTest(const string_type& namespace_uri, const string_type& name) : 
+      uri_(namespace_uri), name_(name) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QNameNodeTest(uri_, name_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    return (node.getNodeType() == principal_) && 
+    int type = node.getNodeType();
+    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
            (name_ == node.getLocalName()) &&
            (uri_ == node.getNamespaceURI());
   } // test
@@ -109,7 +110,6 @@ public:
 private:
   string_type uri_;
   string_type name_;
-  DOM::Node_base::Type principal_;
 }; // QNameNodeTest
 
 template<class string_type, class string_adaptor>
@@ -136,17 +136,14 @@ template<class string_type, class string_adaptor>
 class StarNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  StarNodeTest(DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : principal_(principal) { }
-
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new StarNodeTest(principal_); }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new StarNodeTest(); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    return node.getNodeType() == principal_;
+    int type = node.getNodeType();
+    return (type == DOM::Node_base::ELEMENT_NODE ||
+            type == NAMESPACE_NODE_TYPE);
   } // test
-
-protected:
-  DOM::Node_base::Type principal_;
 }; // class StarNodeTest
 
 template<class string_type, class string_adaptor>
@@ -154,8 +151,8 @@ class QStarNodeTest : public StarNodeTest<string_type, string_adaptor>
 {
   typedef StarNodeTest<string_type, string_adaptor> baseT;
 public:
-  QStarNodeTest(const string_type& namespace_uri, DOM::Node_base::Type principal = DOM::Node_base::ELEMENT_NODE) : baseT(principal), uri_(namespace_uri) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QStarNodeTest(uri_, baseT::principal_); }
+  QStarNodeTest(const string_type& namespace_uri) : baseT(), uri_(namespace_uri) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new QStarNodeTest(uri_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
@@ -238,23 +235,22 @@ template<class string_type, class string_adaptor>
 class ProcessingInstructionNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  ProcessingInstructionNodeTest() : any_(true), target_() { }
-  ProcessingInstructionNodeTest(const string_type& target) : any_(false), target_(target) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return any_ ? new ProcessingInstructionNodeTest() : new ProcessingInstructionNodeTest(target_); }
+  ProcessingInstructionNodeTest() : target_() { }
+  ProcessingInstructionNodeTest(const string_type& target) : target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new ProcessingInstructionNodeTest(target_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
     if(node.getNodeType() != DOM::Node_base::PROCESSING_INSTRUCTION_NODE)
       return false;
 
-    if(any_)
+    if(string_adaptor::empty(target_))
       return true;
 
     return node.getNodeName() == target_;
   } // test
 
 private:
-  bool any_;
   string_type target_;
 }; // ProcessingInstructionNodeTest
 
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 45e3319..1a56671 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -836,61 +836,47 @@ double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<
   typename impl::types<string_adaptor>::node_iter_t i = node;
   impl::skipWhitespace<string_adaptor>(i);
 
-  long id = impl::getNodeId<string_adaptor>(i);
-  size_t child_count = 0;
-  for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
-    child_count += (impl::getNodeId<string_adaptor>(c) != impl::S_id);
-
-  switch(id)
+  switch(impl::getNodeId<string_adaptor>(i))
   {
     case impl::QName_id:
-      return 0;
     case impl::NCName_id:
-      ++i;
-      if(i == end)
-        return 0;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
-      if(impl::getNodeId<string_adaptor>(i) == impl::AnyName_id)
-        return -0.25;
       return 0;
 
+    case impl::NameTest_id:
+      return -0.25;
+
     case impl::NodeTest_id:
-      {
-        typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-        impl::skipWhitespace<string_adaptor>(c);
-        if(impl::getNodeId<string_adaptor>(c) == impl::ProcessingInstruction_id)
-          return 0;
-      }
+      for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
+        if(impl::getNodeId<string_adaptor>(c) == impl::Literal_id)
+          return 0; // processing-instruction(Literal)
+      return defaultPriority(i->children.begin(), i->children.end());
 
     case impl::NodeMatchPattern_id:
     case impl::AnyName_id:
     case impl::Text_id:
     case impl::Comment_id:
     case impl::ProcessingInstruction_id:
-      ++i;
-      if(i == end)
-        return -0.5;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
+    case impl::Node_id:
       return -0.5;
 
-    case impl::NameTest_id:
     case impl::StepPattern_id:
-      //    case impl::LocationPathPattern_id:
     case impl::RelativePathPattern_id:
-      // case impl::Pattern_id:
-      if(child_count <= 2)
-        return defaultPriority(i->children.begin(), i->children.end());
-      break;
-
-    case impl::Child_id:
-    case impl::Attribute_id:
-    case impl::AbbreviatedAxisSpecifier_id:
-      if(child_count == 0)
-        return defaultPriority(i+1, end);
+    case impl::LocationPathPattern_id:
+      {
+        // anything other than a lone node test, perhaps with an axis, is a more specific pattern
+        typename impl::types<string_adaptor>::node_iter_t test = i->children.end();
+        for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
+        {
+          const long id = impl::getNodeId<string_adaptor>(c);
+          if((id == impl::S_id) || (id == impl::Child_id) || (id == impl::Attribute_id) || (id == impl::AbbreviatedAxisSpecifier_id))
+            continue;
+          if(test != i->children.end())
+            return 0.5;
+          test = c;
+        } // for ...
+        if(test != i->children.end())
+          return defaultPriority(test, i->children.end());
+      }
       break;
   } // switch
 
@@ -911,7 +897,7 @@ Axis getPatternAxis(typename impl::types<string_adaptor>::node_iter_t const& fro
   int id = impl::getNodeId<string_adaptor>(next);
 
   if(id == impl::SlashSlash_id)
-    return ANCESTOR_OR_SELF;
+    return ANCESTOR;
   if((id == impl::AbbreviatedAxisSpecifier_id) || (id == impl::Attribute_id))
     return static_cast<Axis>(-1);
 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 36c52d5..ea22dd3 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -129,12 +129,31 @@ public:
     return XPathValue<string_type, string_adaptor>(new NodeSetValue<string_type, string_adaptor>(nodes));
   } // evaluate
 
+  // what this step selects from among node and its peers, the attributes or the children of node's parent
+  NodeSet<string_type, string_adaptor> evaluatePeers(const DOM::Node<string_type, string_adaptor>& node, const ExecutionContext<string_type, string_adaptor>& executionContext) const
+  {
+    NodeSet<string_type, string_adaptor> nodes;
+    if(node.getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
+      enumerateOver(static_cast<DOM::Attr<string_type, string_adaptor> >(node).getOwnerElement(), nodes, executionContext, ATTRIBUTE);
+    else
+      enumerateOver(node.getParentNode(), nodes, executionContext, CHILD);
+    return nodes;
+  } // evaluatePeers
+
 private:
   void enumerateOver(const DOM::Node<string_type, string_adaptor>& context, 
                      NodeSet<string_type, string_adaptor>& results, 
                      const ExecutionContext<string_type, string_adaptor>& parentContext) const
   {
-    AxisEnumerator<string_type, string_adaptor> enumerator(context, axis_);
+    enumerateOver(context, results, parentContext, axis_);
+  } // enumerateOver
+
+  void enumerateOver(const DOM::Node<string_type, string_adaptor>& context, 
+                     NodeSet<string_type, string_adaptor>& results, 
+                     const ExecutionContext<string_type, string_adaptor>& parentContext,
+                     Axis axis) const
+  {
+    AxisEnumerator<string_type, string_adaptor> enumerator(context, axis);
     results.forward(enumerator.forward());
     NodeSet<string_type, string_adaptor> intermediate(enumerator.forward());
     NodeSet<string_type, string_adaptor>& d = (!baseT::has_predicates()) ? results : intermediate;
@@ -340,6 +359,7 @@ private:
     while((node != end) && (getNodeId<string_adaptor>(node) == impl::Predicate_id))
     {
       typename types<string_adaptor>::node_iter_t c = node->children.begin();
+      skipWhitespace<string_adaptor>(c);
       assert(getNodeId<string_adaptor>(c) == impl::LeftSquare_id);
       ++c;
       preds.push_back(XPath<string_type, string_adaptor>::compile_expression(c, node->children.end(), context));
@@ -352,6 +372,24 @@ private:
     return preds;
   } // createPredicates
 
+  // name tests on an axis other than attribute select nodes of the axis' principal type alone
+  class PrincipalTypeNodeTest : public NodeTest<string_type, string_adaptor>
+  {
+  public:
+    PrincipalTypeNodeTest(DOM::Node_base::Type principal, NodeTest<string_type, string_adaptor>* test) : principal_(principal), test_(test) { }
+    virtual ~PrincipalTypeNodeTest() { delete test_; }
+    virtual NodeTest<string_type, string_adaptor>* clone() const { return new PrincipalTypeNodeTest(principal_, test_->clone()); }
+
+    virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+    {
+      return (node.getNodeType() == principal_) && (*test_)(node);
+    } // operator()
+
+  private:
+    DOM::Node_base::Type principal_;
+    NodeTest<string_type, string_adaptor>* test_;
+  }; // class PrincipalTypeNodeTest
+
   static NodeTest<string_type, string_adaptor>* getTest(typename types<string_adaptor>::node_iter_t& node, 
                                         typename types<string_adaptor>::node_iter_t const& end, 
                                         Axis axis, 
@@ -385,7 +423,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQNameNodeTest<string_type, string_adaptor>(uri, name);
           }
-          return new QNameNodeTest<string_type, string_adaptor>(uri, name, principal);
+          return new PrincipalTypeNodeTest(principal, new QNameNodeTest<string_type, string_adaptor>(uri, name));
         } //case QName_id
       
       case impl::NCName_id:
@@ -398,7 +436,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeNameNodeTest<string_type, string_adaptor>(name);
           }
-          return new NameNodeTest<string_type, string_adaptor>(name, principal);
+          return new PrincipalTypeNodeTest(principal, new NameNodeTest<string_type, string_adaptor>(name));
         } // case NameNodeTest
 
       case impl::Comment_id:
@@ -421,6 +459,8 @@ private:
           
           string_type target = string_adaptor::construct(node->value.begin(), node->value.end());
           ++node;
+          if(string_adaptor::empty(target)) // which no processing instruction has
+            return new FailNodeTest<string_type, string_adaptor>();
           return new ProcessingInstructionNodeTest<string_type, string_adaptor>(target);
         } // case ProcessingInstruction_id
       
@@ -447,7 +487,7 @@ private:
           ++node;
           if(axis == ATTRIBUTE)
             return new AttributeNodeTest<string_type, string_adaptor>();
-          return new StarNodeTest<string_type, string_adaptor>(principal);
+          return new PrincipalTypeNodeTest(principal, new StarNodeTest<string_type, string_adaptor>());
         } // case AnyName_id:
 
       case impl::NameTest_id:
@@ -462,7 +502,7 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQStarNodeTest<string_type, string_adaptor>(uri);
           }
-          return new QStarNodeTest<string_type, string_adaptor>(uri, principal);
+          return new PrincipalTypeNodeTest(principal, new QStarNodeTest<string_type, string_adaptor>(uri));
         } // case 
     } // switch(id)
 
-- 
2.43.0


From bad80de95d473db8883fee7f752a20a29d7fc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:08 +0000
Subject: [PATCH 10/53] fix: names and processing instruction data may hold any
 XML character in UTF-8 strings

---
 include/DOM/Simple/NodeImpl.hpp |  9 ++++---
 include/XML/strings.hpp         | 47 +++++++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index d1fc3c4..ac0b69e 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -10,6 +10,7 @@
 #include <DOM/Events/EventListener.hpp>
 #include <DOM/DOMException.hpp>
 #include <XML/XMLCharacterClasses.hpp>
+#include <XML/strings.hpp>
 #include <deque>
 #include <algorithm>
 #include <map>
@@ -213,8 +214,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_name_char(*i))
+      while(i != ie)
+	if(!XML::is_name_char(XML::impl::next_char(i, ie, typename string_adaptorT::value_type())))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
@@ -223,8 +224,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_char(*i))
+      while(i != ie)
+	if(!XML::is_char(XML::impl::next_char(i, ie, typename string_adaptorT::value_type())))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
diff --git a/include/XML/strings.hpp b/include/XML/strings.hpp
index fb01057..c29f9d8 100755
--- a/include/XML/strings.hpp
+++ b/include/XML/strings.hpp
@@ -20,6 +20,44 @@ namespace Arabica
 {
 namespace XML
 {
+  namespace impl
+  {
+    // reads one character, moving s past it
+    template<typename const_iterator, typename value_type>
+    inline wchar_t next_char(const_iterator& s, const const_iterator& /* e */, value_type /* tag */)
+    {
+      return *s++;
+    } // next_char
+
+    // chars are UTF-8 - anything malformed gives 0, which isn't an XML character, and
+    // anything beyond the BMP, which is a character but never part of a name, gives U+FFFD
+    template<typename const_iterator>
+    inline wchar_t next_char(const_iterator& s, const const_iterator& e, char /* tag */)
+    {
+      const unsigned char lead = static_cast<unsigned char>(*s++);
+      if(lead < 0x80)
+        return lead;
+
+      int trailing = (lead >= 0xC2 && lead < 0xE0) ? 1 :
+                     (lead >= 0xE0 && lead < 0xF0) ? 2 :
+                     (lead >= 0xF0 && lead < 0xF5) ? 3 : 0;
+      if(trailing == 0)
+        return 0;
+
+      unsigned int c = lead & (0x3F >> trailing);
+      const unsigned int least = (trailing == 1) ? 0x80 : (trailing == 2) ? 0x800 : 0x10000;
+      for( ; trailing != 0; --trailing, ++s)
+      {
+        if((s == e) || ((static_cast<unsigned char>(*s) & 0xC0) != 0x80))
+          return 0;
+        c = (c << 6) | (static_cast<unsigned char>(*s) & 0x3F);
+      } // for ...
+      if(c < least || c > 0x10FFFF)
+        return 0;
+      return static_cast<wchar_t>(c >= 0x10000 ? 0xFFFD : c);
+    } // next_char
+  } // namespace impl
+
   template<typename string_adaptor>
   inline bool is_ncname(const typename string_adaptor::const_iterator& b,
                         const typename string_adaptor::const_iterator& e)
@@ -32,14 +70,13 @@ namespace XML
       return false;  // zero length
 
     const_iterator s = b;
-    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE)))
+    wchar_t first = impl::next_char(s, e, value_type());
+    if(!(is_letter(first) || (first == Unicode<wchar_t>::LOW_LINE)))
        return false;
 
-    ++s;
-    for( ; s != e; ++s)
+    while(s != e)
     {
-      value_type c = *s;
-      if(!is_ncname_char(c))
+      if(!is_ncname_char(impl::next_char(s, e, value_type())))
         return false;
     }
     return true;
-- 
2.43.0


From a350cf75c3cbce1761198c8bf4d73c2a88cd58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:08 +0000
Subject: [PATCH 11/53] fix: URI resolution removes every dot segment, keeps
 ports and queries apart from the path, and colons only follow schemes

---
 src/io/uri.cpp | 108 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 31 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..9a7ffb5 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -80,6 +80,19 @@ void fixSlashes(std::string& path)
     path[i] = FORWARD_SLASH;
 } // fixSlashes
 
+bool is_scheme(const std::string& uri, size_t length)
+{
+  for(size_t i = 0; i != length; ++i)
+  {
+    const char c = uri[i];
+    const bool alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+    const bool other = (c >= '0' && c <= '9') || (c == '+') || (c == '-') || (c == '.');
+    if(!alpha && !(other && i != 0))
+      return false;
+  } // for ...
+  return length != 0;
+} // is_scheme
+
 void URI::parse(const std::string& uri)
 {
   parse_uri(uri);
@@ -95,7 +108,7 @@ void URI::parse_uri(const std::string& uri)
   // but that would put a Boost Spirit dependence right in the core, which I'm not prepared to do at the moment
 
   size_t d = uri.find_first_of(COLON);
-  if(d == std::string::npos)
+  if((d == std::string::npos) || !is_scheme(uri, d))
   {
     path_ = uri;
     fixSlashes(path_);
@@ -117,7 +130,7 @@ void URI::parse_uri(const std::string& uri)
   std::string::const_iterator ue = uri.end();
 
   ++u;
-  if(*u == FORWARD_SLASH && *(u+1) == FORWARD_SLASH)
+  if(uri.compare(d+1, 2, "//") == 0)
   {
     u += 2;
     u = parseAuthority(u, ue);
@@ -130,13 +143,6 @@ std::string::const_iterator URI::parseAuthority(const std::string::const_iterato
 						const std::string::const_iterator& ue)
 {
   std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
-
   std::string::const_iterator colon = std::find(u, slash, ':');
   host_.append(u, colon);
 
@@ -156,6 +162,37 @@ bool compatible_schemes(const std::string& scheme,
   return (scheme == relative);
 } // compatible_schemes
 
+std::string remove_dot_segments(const std::string& path)
+{
+  const bool rooted = !path.empty() && (path[0] == FORWARD_SLASH);
+  std::string clean;            // ends with a slash, unless empty
+  size_t kept = 0;              // leading .. segments that have nothing to go up from
+  for(size_t from = rooted ? 1 : 0; from <= path.length(); )
+  {
+    const size_t slash = std::min(path.find(FORWARD_SLASH, from), path.length());
+    const std::string segment = path.substr(from, slash - from);
+    const bool last = (slash == path.length());
+    from = slash + 1;
+
+    if(segment == "..")
+    {
+      if(clean.length() > kept)
+      {
+        const size_t parent = clean.rfind(FORWARD_SLASH, clean.length() - 2);
+        clean.erase((clean.length() == 1 || parent == std::string::npos) ? 0 : parent + 1);
+      }
+      else if(!rooted)
+      {
+        clean.append(segment).append("/");
+        kept = clean.length();
+      }
+    }
+    else if(segment != ".")
+      clean.append(segment).append(last ? "" : "/");
+  } // for ...
+  return rooted ? FORWARD_SLASH + clean : clean;
+} // remove_dot_segments
+
 void URI::absolutise(URI& relative)
 {
   if((relative.is_absolute()) || 
@@ -165,33 +202,42 @@ void URI::absolutise(URI& relative)
     return;
   }
 
-  if(relative.path_[0] == FORWARD_SLASH)
-    path_ = relative.path_;
-  else 
-    combinePath(relative.path_);
+  if(relative.scheme_.empty() && !scheme_.empty() && (relative.path_.compare(0, 2, "//") == 0))
+  {
+    const std::string path = relative.path_;
+    host_.clear();
+    port_.clear();
+    std::string::const_iterator p = parseAuthority(path.begin() + 2, path.end());
+    path_ = remove_dot_segments(std::string(p, path.end()));
+    return;
+  } // if ...
+
+  combinePath(relative.path_);
 } // absolutise
 
 void URI::combinePath(const std::string& relPath)
 {
-  if(*(path_.rbegin()) != FORWARD_SLASH)
-    path_.erase(path_.rfind(FORWARD_SLASH)+1);
-
-  std::string::size_type from = path_.length() - 1;
-  path_.append(relPath);
-
-  size_t dots = path_.find("/../", from);
-  while(dots != std::string::npos)
+  // a plain file name may well have ? or # in it
+  const bool has_query = !host_.empty();
+  const size_t suffix = has_query ? relPath.find_first_of("?#") : std::string::npos;
+  const std::string rel = relPath.substr(0, suffix);
+  const std::string query = (suffix != std::string::npos) ? relPath.substr(suffix) : std::string();
+  const std::string base = has_query ? path_.substr(0, path_.find_first_of("?#")) : path_;
+
+  if(rel.empty())
   {
-    size_t preceding_slash = (dots > 0) ? path_.rfind(FORWARD_SLASH, dots-1) : 0;
-    path_.erase(preceding_slash, dots+3-preceding_slash);
-    dots = path_.find("/../", preceding_slash);
-  } // while
+    if(!query.empty())
+      path_ = ((query[0] == '#') ? path_.substr(0, path_.find('#')) : base) + query;
+    return;
+  } // if ...
 
-  size_t dot = path_.find("/./");
-  while(dot != std::string::npos)
+  std::string combined = rel;
+  if(rel[0] != FORWARD_SLASH)
   {
-    path_.erase(dot, 2);
-    dot = path_.find("/./", dot);
-  }
-} // combinePath
+    combined = base.substr(0, base.rfind(FORWARD_SLASH)+1) + rel;
+    if(base.empty() && !host_.empty())
+      combined.insert(combined.begin(), FORWARD_SLASH);
+  } // if ...
 
+  path_ = remove_dot_segments(combined) + query;
+} // combinePath
-- 
2.43.0


From ca1c7debdc7a9ef2076fb53533d4493cef08253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:06 +0000
Subject: [PATCH 12/53] fix: NamespaceSupport redeclaration replaces, reverse
 lookups skip shadowed and default bindings

---
 include/SAX/helpers/NamespaceSupport.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..6a49a85 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_NAMESPACE_SUPPORT_H
 
 #include <SAX/ArabicaConfig.hpp>
+#include <algorithm>
 #include <map>
 #include <vector>
 #include <functional>
@@ -178,7 +179,7 @@ class NamespaceSupport
       if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
         return false;
 
-      contexts_.back().insert(std::make_pair(prefix, uri));
+      contexts_.back()[prefix] = uri;
       return true;
     } // declarePrefix
 
@@ -277,7 +278,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if(!string_adaptor::empty(u->first) && (u->second == uri) && (getURI(u->first) == uri))
             return u->first;
       } // for ...
 
@@ -304,7 +305,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
+          if(!string_adaptor::empty(u->first) && !contains(prefixes, u->first))
             prefixes.push_back(u->first);
       } // for ...
        
@@ -339,7 +340,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if(!string_adaptor::empty(u->first) && (u->second == uri) && (getURI(u->first) == uri) && !contains(prefixes, u->first))
             prefixes.push_back(u->first);
       } // for ...
 
@@ -369,7 +370,12 @@ class NamespaceSupport
     } // getDeclaredPrefixes
 
   private:
-    typedef typename std::multimap<string_type, string_type> stringMapT;
+    static bool contains(const stringListT& prefixes, const string_type& prefix)
+    {
+      return std::find(prefixes.begin(), prefixes.end(), prefix) != prefixes.end();
+    } // contains
+
+    typedef typename std::map<string_type, string_type> stringMapT;
     typedef stringMapT Context;
     typedef typename std::vector<Context> contextListT;
 
-- 
2.43.0


From 57433a18326559a83ae44a6bc6302a21b769f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:06 +0000
Subject: [PATCH 13/53] fix: AttributesImpl assignment returns, and survives
 self-assignment

---
 include/SAX/helpers/AttributesImpl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..a4c9458 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -93,6 +93,7 @@ public:
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
     setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
@@ -324,6 +325,9 @@ public:
    */
   void setAttributes(const AttributesT& atts)
   {
+    if(&atts == this)
+      return;
+
 	  clear();
 	  
     int max = atts.getLength();
-- 
2.43.0


From 54a9254b5df7d6e3f0398aad5fbdb6773ba9b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:06 +0000
Subject: [PATCH 14/53] fix: carriage returns in text are written as references
 so they survive reparsing

---
 include/XML/escaper.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..8d61e31 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -46,6 +46,16 @@ class text_escaper
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
 
+      if(ch == UnicodeT::CARRIAGE_RETURN)
+      {
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
+
       stream_ << ch;
     } // operator()
 
@@ -94,16 +104,6 @@ public:
 		<< UnicodeT::SEMI_COLON;
 	return;
       } // if(ch == UnicodeT::LINE_FEED)
-      if(ch == UnicodeT::CARRIAGE_RETURN)
-      {
-	this->stream_ << UnicodeT::AMPERSAND
-		<< UnicodeT::NUMBER_SIGN
-		<< UnicodeT::LOWERCASE_X
-		<< UnicodeT::CAPITAL_D
-		<< UnicodeT::SEMI_COLON;
-	return;
-      } // if(ch == UnicodeT::CARRIAGE_RETURN)
-
       text_escaper<char_type, traits_type>::operator()(ch);
     } // operator()
 }; // attribute_escaper
-- 
2.43.0


From 593fe62a7d84088ca36ebdf3f9534c96747d7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 15/53] fix: character conversion facets honour the codecvt
 contract: exact capacity, malformed and supplementary characters, length()

---
 .../convert/impl/codecvt_specialisations.hpp  |  10 +-
 include/convert/impl/iso88591_utf8.hpp        |   4 +
 include/convert/impl/ucs2_utf16.hpp           |   3 +
 include/convert/impl/ucs2_utf8.hpp            |   4 +
 include/convert/iso88591utf8codecvt.hpp       |   2 +-
 include/convert/rot13codecvt.hpp              |   2 +-
 include/convert/ucs2utf8codecvt.hpp           |   4 +-
 include/convert/utf16beucs2codecvt.hpp        |   6 +-
 include/convert/utf16leucs2codecvt.hpp        |   6 +-
 include/convert/utf16utf8codecvt.hpp          |   2 +-
 include/convert/utf8iso88591codecvt.hpp       |   4 +-
 include/convert/utf8ucs2codecvt.hpp           |   4 +-
 src/convert/impl/iso88591_utf8.cpp            | 143 ++++++++++------
 src/convert/impl/ucs2_utf16.cpp               | 108 +++++++++---
 src/convert/impl/ucs2_utf8.cpp                | 157 +++++++++++++-----
 src/convert/iso88591utf8codecvt.cpp           |  16 +-
 src/convert/rot13codecvt.cpp                  |   4 +-
 src/convert/ucs2utf8codecvt.cpp               |  17 +-
 src/convert/utf16beucs2codecvt.cpp            |   4 +-
 src/convert/utf16leucs2codecvt.cpp            |   4 +-
 src/convert/utf16utf8codecvt.cpp              |  17 +-
 src/convert/utf8iso88591codecvt.cpp           |  36 +---
 src/convert/utf8ucs2codecvt.cpp               |  36 +---
 23 files changed, 335 insertions(+), 258 deletions(-)

diff --git a/include/convert/impl/codecvt_specialisations.hpp b/include/convert/impl/codecvt_specialisations.hpp
index bb488e2..cac5bde 100644
--- a/include/convert/impl/codecvt_specialisations.hpp
+++ b/include/convert/impl/codecvt_specialisations.hpp
@@ -77,14 +77,14 @@ protected:
                                       wchar_t* to_limit,
 		                                  wchar_t*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
+    std::ptrdiff_t limit = std::min<std::ptrdiff_t>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
     while(limit--)
       *to_next++ = static_cast<wchar_t>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_out
 
 
@@ -96,14 +96,14 @@ protected:
                                      char* to_limit,
                                      char*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
+    std::ptrdiff_t limit = std::min<std::ptrdiff_t>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
     while(limit--)
       *to_next++ = static_cast<char>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_in
 
   virtual codecvt_base::result do_unshift(std::mbstate_t&,
@@ -130,7 +130,7 @@ protected:
                         const wchar_t* end,
                         size_t max) const
   {
-    return std::min<int>(max, (end - from));
+    return static_cast<int>(std::min<size_t>(max, end - from));
   } // do_length
 
   virtual int do_max_length() const throw()
diff --git a/include/convert/impl/iso88591_utf8.hpp b/include/convert/impl/iso88591_utf8.hpp
index b8fefe5..7f567b1 100644
--- a/include/convert/impl/iso88591_utf8.hpp
+++ b/include/convert/impl/iso88591_utf8.hpp
@@ -16,6 +16,10 @@ std::codecvt_base::result iso88591_2_utf8(const char* from, const char* from_end
 std::codecvt_base::result utf8_2_iso88591(const char* from, const char* from_end, const char*& from_next,
                                           char* to, char* to_limit, char*& to_next);
 
+// how much of the input makes no more than max characters of output?
+int iso88591_2_utf8_length(const char* from, const char* from_end, size_t max);
+int utf8_2_iso88591_length(const char* from, const char* from_end, size_t max);
+
 } // namespace impl
 } // namespace convert
 } // namespace Arabica
diff --git a/include/convert/impl/ucs2_utf16.hpp b/include/convert/impl/ucs2_utf16.hpp
index bb111ba..b7b0412 100644
--- a/include/convert/impl/ucs2_utf16.hpp
+++ b/include/convert/impl/ucs2_utf16.hpp
@@ -17,6 +17,9 @@ std::codecvt_base::result utf16_2_ucs2(bool be,
                                        char const* from, char const* from_end, char const*& from_next,
                                        wchar_t* to, wchar_t* to_limit, wchar_t*& to_next);
 
+// how much of the input makes no more than max characters of output?
+int utf16_2_ucs2_length(bool be, char const* from, char const* from_end, size_t max);
+
 } // namespace impl
 } // namepsace convert
 } // namespace Arabica
diff --git a/include/convert/impl/ucs2_utf8.hpp b/include/convert/impl/ucs2_utf8.hpp
index e2ed06f..4e87a68 100644
--- a/include/convert/impl/ucs2_utf8.hpp
+++ b/include/convert/impl/ucs2_utf8.hpp
@@ -16,6 +16,10 @@ std::codecvt_base::result ucs2_2_utf8(const wchar_t* from, const wchar_t* from_e
 std::codecvt_base::result utf8_2_ucs2(const char* from, const char* from_end, const char*& from_next,
                                       wchar_t* to, wchar_t* to_limit, wchar_t*& to_next);
 
+// how much of the input makes no more than max characters of output?
+int ucs2_2_utf8_length(const wchar_t* from, const wchar_t* from_end, size_t max);
+int utf8_2_ucs2_length(const char* from, const char* from_end, size_t max);
+
 } // namespace impl
 } // namespace convert
 } // namespace Arabica
diff --git a/include/convert/iso88591utf8codecvt.hpp b/include/convert/iso88591utf8codecvt.hpp
index b1ce5a8..972d478 100644
--- a/include/convert/iso88591utf8codecvt.hpp
+++ b/include/convert/iso88591utf8codecvt.hpp
@@ -39,7 +39,7 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const;
diff --git a/include/convert/rot13codecvt.hpp b/include/convert/rot13codecvt.hpp
index c91ed45..b2b1b61 100644
--- a/include/convert/rot13codecvt.hpp
+++ b/include/convert/rot13codecvt.hpp
@@ -47,7 +47,7 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const;
diff --git a/include/convert/ucs2utf8codecvt.hpp b/include/convert/ucs2utf8codecvt.hpp
index 1fd330c..9d1d66e 100644
--- a/include/convert/ucs2utf8codecvt.hpp
+++ b/include/convert/ucs2utf8codecvt.hpp
@@ -25,8 +25,6 @@ namespace convert
 
 class ucs2utf8codecvt : public std::codecvt<char, wchar_t, std::mbstate_t>
 {
-public:
-  static std::locale::id id;
 protected:
   typedef std::codecvt_base::result result;
 
@@ -57,7 +55,7 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const wchar_t* from,
                         const wchar_t* end,
                         size_t max) const;
diff --git a/include/convert/utf16beucs2codecvt.hpp b/include/convert/utf16beucs2codecvt.hpp
index 6c1e3ba..76ba813 100644
--- a/include/convert/utf16beucs2codecvt.hpp
+++ b/include/convert/utf16beucs2codecvt.hpp
@@ -47,16 +47,16 @@ protected:
                             char*,
                             char*&) const;
 
-  virtual int do_encoding() const throw() { return 2; }
+  virtual int do_encoding() const throw() { return 0; }
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const;
 
-  virtual int do_max_length() const throw() { return 2; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf16beucs2codecvt
 
 } // namespace convert
diff --git a/include/convert/utf16leucs2codecvt.hpp b/include/convert/utf16leucs2codecvt.hpp
index 2a107aa..e64711b 100644
--- a/include/convert/utf16leucs2codecvt.hpp
+++ b/include/convert/utf16leucs2codecvt.hpp
@@ -47,16 +47,16 @@ protected:
                             char*,
                             char*&) const;
 
-  virtual int do_encoding() const throw() { return 2; }
+  virtual int do_encoding() const throw() { return 0; }
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const;
 
-  virtual int do_max_length() const throw() { return 2; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf16leucs2codecvt
 
 } // namespace convert
diff --git a/include/convert/utf16utf8codecvt.hpp b/include/convert/utf16utf8codecvt.hpp
index cf0e2b9..8f181c8 100644
--- a/include/convert/utf16utf8codecvt.hpp
+++ b/include/convert/utf16utf8codecvt.hpp
@@ -57,7 +57,7 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const wchar_t* from,
                         const wchar_t* end,
                         size_t max) const;
diff --git a/include/convert/utf8iso88591codecvt.hpp b/include/convert/utf8iso88591codecvt.hpp
index 9dee04a..a4f8a6b 100644
--- a/include/convert/utf8iso88591codecvt.hpp
+++ b/include/convert/utf8iso88591codecvt.hpp
@@ -38,12 +38,12 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const;
 
-  virtual int do_max_length() const throw() { return 3; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf8iso88591codecvt
 
 } // namespace convert
diff --git a/include/convert/utf8ucs2codecvt.hpp b/include/convert/utf8ucs2codecvt.hpp
index c30a969..c804eb6 100644
--- a/include/convert/utf8ucs2codecvt.hpp
+++ b/include/convert/utf8ucs2codecvt.hpp
@@ -55,12 +55,12 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const throw();
 
-  virtual int do_max_length() const throw() { return 3; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf8ucs2codecvt
 
 } // namespace convert
diff --git a/src/convert/impl/iso88591_utf8.cpp b/src/convert/impl/iso88591_utf8.cpp
index 44277d6..4406584 100644
--- a/src/convert/impl/iso88591_utf8.cpp
+++ b/src/convert/impl/iso88591_utf8.cpp
@@ -3,25 +3,48 @@
 //---------------------------------------------------------------------------
 #include <convert/impl/iso88591_utf8.hpp>
 //---------------------------------------------------------------------------
-// Some of this code is derived from work done by Ken Thompson,
-// provided to the X/Open Group.
 
 namespace {
-  struct Tab
+  // decode the single character at from
+  // returns ok, partial if the sequence is incomplete, or error if it's malformed
+  std::codecvt_base::result decode(const char* from, const char* from_end,
+                                   unsigned long& ch, int& length)
   {
-    char char_mask;
-    char char_value;
-    int shift;
-    wchar_t wide_mask;
-  };
+    static const unsigned long smallest[] = { 0, 0, 0x80, 0x800, 0x10000 };
 
-  static const Tab tab[] =
-  {
-    { char(0x80),  char(0x00),   0*6,    0x7F,   },   // 1 byte sequence
-    { char(0xE0),  char(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
-    { char(0xF0),  char(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
-    { 0,           0,            0,      0,      }    // end of table
-  };
+    unsigned char start = static_cast<unsigned char>(*from);
+    if(start < 0x80)
+    {
+      length = 1;
+      ch = start;
+      return std::codecvt_base::ok;
+    } // if ...
+
+    if((start & 0xE0) == 0xC0)
+      length = 2;
+    else if((start & 0xF0) == 0xE0)
+      length = 3;
+    else if((start & 0xF8) == 0xF0)
+      length = 4;
+    else
+      return std::codecvt_base::error;
+
+    ch = start & (0x7F >> length);
+    for(int i = 1; i != length; ++i)
+    {
+      if(from + i == from_end)
+        return std::codecvt_base::partial;
+      unsigned char next = static_cast<unsigned char>(from[i]);
+      if((next & 0xC0) != 0x80)
+        return std::codecvt_base::error;
+      ch = (ch << 6) | (next & 0x3F);
+    } // for ...
+
+    bool surrogate = (ch >= 0xD800) && (ch <= 0xDFFF);
+    if((ch < smallest[length]) || (ch > 0x10FFFF) || surrogate)
+      return std::codecvt_base::error;
+    return std::codecvt_base::ok;
+  } // decode
 } // namespace 
 
 std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
@@ -33,25 +56,19 @@ std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
 
   while(from_next < from_end)
   {
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      unsigned char fn = static_cast<unsigned char>(*from_next);
-      if(fn > t->wide_mask )
-        continue;
+    unsigned char fn = static_cast<unsigned char>(*from_next);
 
-      // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
-        return std::codecvt_base::partial;
+    // is there enough room in outbuffer?
+    if(to_limit - to_next < ((fn & 0x80) ? 2 : 1))
+      return std::codecvt_base::partial;
 
-      int c = t->shift;
-      *to_next++ = static_cast<char>(t->char_value | (fn >> c));
-      while(c > 0)
-      {
-      	c -= 6;
-       	*to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
-      } // while(c > 0)
-      break;
-    } // for(Tab *t = tab;  t->char_mask; t++)
+    if(fn & 0x80)
+    {
+      *to_next++ = static_cast<char>(0xC0 | (fn >> 6));
+      *to_next++ = static_cast<char>(0x80 | (fn & 0x3F));
+    }
+    else
+      *to_next++ = static_cast<char>(fn);
     ++from_next;
   } // while(from_next < from_end)
 
@@ -65,30 +82,50 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_iso88591(
   from_next = from;
   to_next = to;
 
-	while((from_next < from_end) && (to_next < to_limit))
-	{
-    char start = *from_next;
-    wchar_t next = static_cast<unsigned char>(*from_next);
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      if((start & t->char_mask) == t->char_value)
-      {
-        next &= t->wide_mask;
-        break;
-      }
-      from_next++;
-      next = (next << 6) | ((*from_next ^ 0x80) & 0xff);
-    } // for(Tab *t = tab;  t->char_mask; t++)
-
-    if(next <= 0xFF)
-      *to_next = static_cast<char>(next);
-    else
-      *to_next = '?';  // error state!
+  while((from_next < from_end) && (to_next < to_limit))
+  {
+    unsigned long ch;
+    int length;
+    std::codecvt_base::result res = decode(from_next, from_end, ch, length);
+    if(res != std::codecvt_base::ok)
+      return res;
 
-    ++from_next;
-    ++to_next;
+    // there's no way to write anything beyond Latin-1
+    *to_next++ = (ch <= 0xFF) ? static_cast<char>(ch) : '?';
+    from_next += length;
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
 } // utf8_2_iso88591
+
+int Arabica::convert::impl::iso88591_2_utf8_length(const char* from, const char* from_end, size_t max)
+{
+  const char* from_next = from;
+  size_t count = 0;
+  while(from_next < from_end)
+  {
+    size_t length = (*from_next & 0x80) ? 2 : 1;
+    if(max - count < length)
+      break;
+    count += length;
+    ++from_next;
+  } // while
+
+  return static_cast<int>(from_next - from);
+} // iso88591_2_utf8_length
+
+int Arabica::convert::impl::utf8_2_iso88591_length(const char* from, const char* from_end, size_t max)
+{
+  const char* from_next = from;
+  for(size_t count = 0; (from_next < from_end) && (count < max); ++count)
+  {
+    unsigned long ch;
+    int length;
+    if(decode(from_next, from_end, ch, length) != std::codecvt_base::ok)
+      break;
+    from_next += length;
+  } // for ...
+
+  return static_cast<int>(from_next - from);
+} // utf8_2_iso88591_length
 // end of file
diff --git a/src/convert/impl/ucs2_utf16.cpp b/src/convert/impl/ucs2_utf16.cpp
index ca1e050..53c27f6 100644
--- a/src/convert/impl/ucs2_utf16.cpp
+++ b/src/convert/impl/ucs2_utf16.cpp
@@ -3,6 +3,56 @@
 #include <convert/impl/ucs2_utf16.hpp>
 // --------------------------------------------------------------------------
 
+namespace {
+  const bool pairs = sizeof(wchar_t) > 2;   // do surrogate pairs make one wchar_t?
+
+  bool high_surrogate(unsigned long ch) { return (ch >= 0xD800) && (ch <= 0xDBFF); }
+  bool low_surrogate(unsigned long ch) { return (ch >= 0xDC00) && (ch <= 0xDFFF); }
+
+  unsigned long unit(bool be, char const* from)
+  {
+    unsigned long b1 = static_cast<unsigned char>(from[0]);
+    unsigned long b2 = static_cast<unsigned char>(from[1]);
+    return be ? ((b1 << 8) + b2) : ((b2 << 8) + b1);
+  } // unit
+
+  void put_unit(bool be, unsigned long u, char*& to)
+  {
+    char lb = static_cast<char>(static_cast<unsigned char>(u & 0xFF));
+    char hb = static_cast<char>(static_cast<unsigned char>((u >> 8) & 0xFF));
+    *to++ = be ? hb : lb;
+    *to++ = be ? lb : hb;
+  } // put_unit
+
+  // decode the single character at from
+  // returns ok, partial if it is incomplete, or error if it's malformed
+  std::codecvt_base::result decode(bool be, char const* from, char const* from_end,
+                                   unsigned long& ch, int& length)
+  {
+    if(from_end - from < 2)
+      return std::codecvt_base::partial;
+
+    ch = unit(be, from);
+    length = 2;
+    if(!pairs)
+      return std::codecvt_base::ok;
+
+    if(low_surrogate(ch))
+      return std::codecvt_base::error;
+    if(high_surrogate(ch))
+    {
+      if(from_end - from < 4)
+        return std::codecvt_base::partial;
+      unsigned long low = unit(be, from + 2);
+      if(!low_surrogate(low))
+        return std::codecvt_base::error;
+      ch = 0x10000 + ((ch - 0xD800) << 10) + (low - 0xDC00);
+      length = 4;
+    } // if ...
+    return std::codecvt_base::ok;
+  } // decode
+} // namespace
+
 std::codecvt_base::result Arabica::convert::impl::utf16_2_ucs2(bool be,
                        char const* from, char const* from_end, char const*& from_next,
                        wchar_t* to, wchar_t* to_limit, wchar_t*& to_next)
@@ -10,12 +60,16 @@ std::codecvt_base::result Arabica::convert::impl::utf16_2_ucs2(bool be,
   from_next = from;
   to_next = to;
 
-  while((from_next+1 < from_end) && (to_next < to_limit))
-	{ 
-    wchar_t b1 = static_cast<unsigned char>(*from_next++);
-    wchar_t b2 = static_cast<unsigned char>(*from_next++);
+  while((from_next < from_end) && (to_next < to_limit))
+  { 
+    unsigned long ch;
+    int length;
+    std::codecvt_base::result res = decode(be, from_next, from_end, ch, length);
+    if(res != std::codecvt_base::ok)
+      return res;
 
-    *to_next++ = be ? ((b1 << 8) + b2) : ((b2 << 8) + b1);
+    *to_next++ = static_cast<wchar_t>(ch);
+    from_next += length;
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
@@ -30,28 +84,42 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf16(bool be,
 
   while(from_next < from_end)
   {
-    if(to_next + 2 >= to_limit)
+    unsigned long ch = static_cast<unsigned long>(*from_next);
+    if(pairs && (high_surrogate(ch) || low_surrogate(ch) || (ch > 0x10FFFF)))
+      return std::codecvt_base::error;
+
+    bool pair = pairs && (ch > 0xFFFF);
+    if(to_limit - to_next < (pair ? 4 : 2))
       return std::codecvt_base::partial;
 
-    wchar_t ch = *from_next;
-    unsigned char lb = static_cast<unsigned char>(ch & 0xFF);
-    unsigned char hb = static_cast<unsigned char>((ch >> 8) & 0xFF);
- 
-    if(be)
-    { // big endian
-      *to_next++ = hb;
-      *to_next++ = lb;
-    } 
-    else
-    { // little endian
-      *to_next++ = lb;
-      *to_next++ = hb;
+    if(pair)
+    {
+      put_unit(be, 0xD800 + ((ch - 0x10000) >> 10), to_next);
+      put_unit(be, 0xDC00 + ((ch - 0x10000) & 0x3FF), to_next);
     }
+    else
+      put_unit(be, ch, to_next);
 
     ++from_next;
   } // while(from_next < from_end)
 
   return std::codecvt_base::ok;
-} // ucs2_2_utf8
+} // ucs2_2_utf16
+
+int Arabica::convert::impl::utf16_2_ucs2_length(bool be,
+                        char const* from, char const* from_end, size_t max)
+{
+  char const* from_next = from;
+  for(size_t count = 0; (from_next < from_end) && (count < max); ++count)
+  {
+    unsigned long ch;
+    int length;
+    if(decode(be, from_next, from_end, ch, length) != std::codecvt_base::ok)
+      break;
+    from_next += length;
+  } // for ...
+
+  return static_cast<int>(from_next - from);
+} // utf16_2_ucs2_length
 
 // end of file
diff --git a/src/convert/impl/ucs2_utf8.cpp b/src/convert/impl/ucs2_utf8.cpp
index 4b9f5d8..04799b7 100644
--- a/src/convert/impl/ucs2_utf8.cpp
+++ b/src/convert/impl/ucs2_utf8.cpp
@@ -16,15 +16,68 @@ namespace {
     unsigned char char_value;
     int shift;
     unsigned long wide_mask;
+    unsigned long smallest;   // anything less has a shorter sequence
   };
 
   static const Tab tab[] =
   {
-    { (unsigned char)(0x80),  (unsigned char)(0x00),   0*6,    0x7F,   },   // 1 byte sequence
-    { (unsigned char)(0xE0),  (unsigned char)(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
-    { (unsigned char)(0xF0),  (unsigned char)(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
-    { 0,                      0,                       0,      0,      }    // end of table
+    { (unsigned char)(0x80),  (unsigned char)(0x00),   0*6,    0x7F,     0x0     },   // 1 byte sequence
+    { (unsigned char)(0xE0),  (unsigned char)(0xC0),   1*6,    0x7FF,    0x80    },   // 2 byte sequence
+    { (unsigned char)(0xF0),  (unsigned char)(0xE0),   2*6,    0xFFFF,   0x800   },   // 3 byte sequence
+    { (unsigned char)(0xF8),  (unsigned char)(0xF0),   3*6,    0x1FFFFF, 0x10000 },   // 4 byte sequence
+    { 0,                      0,                       0,      0,        0       }    // end of table
   };
+
+  // a wide character on its own - where wchar_t is 16 bits the surrogates
+  // pass through as they are, and there are no characters beyond them
+  bool representable(unsigned long ch)
+  {
+    if(sizeof(wchar_t) == 2)
+      return ch <= 0xFFFF;
+    return (ch <= 0x10FFFF) && !((ch >= 0xD800) && (ch <= 0xDFFF));
+  } // representable
+
+  // how many bytes does this character need? 0 if it can't be done
+  int sequence_length(wchar_t wc)
+  {
+    unsigned long ch = static_cast<unsigned long>(wc);
+    if(!representable(ch))
+      return 0;
+    int count = 1;
+    for(const Tab* t = tab; ch > t->wide_mask; ++t)
+      ++count;
+    return count;
+  } // sequence_length
+
+  // decode the single character at from
+  // returns ok, partial if the sequence is incomplete, or error if it's malformed
+  std::codecvt_base::result decode(const char* from, const char* from_end,
+                                   unsigned long& ch, int& length)
+  {
+    unsigned char start = static_cast<unsigned char>(*from);
+
+    const Tab* t = tab;
+    while(t->char_mask && ((start & t->char_mask) != t->char_value))
+      ++t;
+    if(!t->char_mask)
+      return std::codecvt_base::error;
+
+    length = static_cast<int>(t - tab) + 1;
+    ch = start & static_cast<unsigned char>(~t->char_mask);
+    for(int i = 1; i != length; ++i)
+    {
+      if(from + i == from_end)
+        return std::codecvt_base::partial;
+      unsigned char next = static_cast<unsigned char>(from[i]);
+      if((next & 0xC0) != 0x80)
+        return std::codecvt_base::error;
+      ch = (ch << 6) | (next & 0x3F);
+    } // for ...
+
+    if((ch < t->smallest) || !representable(ch))
+      return std::codecvt_base::error;
+    return std::codecvt_base::ok;
+  } // decode
 } // namespace 
 
 
@@ -37,26 +90,23 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf8(
 
   while(from_next < from_end)
   {
-    unsigned long fn = static_cast<unsigned long >(*from_next);
+    int length = sequence_length(*from_next);
+    if(!length)
+      return std::codecvt_base::error;
 
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      if(fn > t->wide_mask )
-        continue;
+    // is there enough room in outbuffer?
+    if(to_limit - to_next < length)
+      return std::codecvt_base::partial;
 
-      // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
-        return std::codecvt_base::partial;
-
-      int c = t->shift;
-      *to_next++ = static_cast<char>(t->char_value | (fn >> c));
-      while(c > 0)
-      {
-      	c -= 6;
-       	*to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
-      } // while(c > 0)
-      break;
-    } // for(Tab *t = tab;  t->char_mask; t++)
+    unsigned long fn = static_cast<unsigned long >(*from_next);
+    const Tab& t = tab[length-1];
+    int c = t.shift;
+    *to_next++ = static_cast<char>(t.char_value | (fn >> c));
+    while(c > 0)
+    {
+      c -= 6;
+      *to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
+    } // while(c > 0)
     ++from_next;
   } // while(from_next < from_end)
 
@@ -70,34 +120,49 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_ucs2(
   from_next = from;
   to_next = to;
 
-	while((from_next < from_end) && (to_next < to_limit))
-	{
-    unsigned char start = static_cast<unsigned char>(*from_next);
+  while((from_next < from_end) && (to_next < to_limit))
+  {
+    unsigned long ch;
+    int length;
+    std::codecvt_base::result res = decode(from_next, from_end, ch, length);
+    if(res != std::codecvt_base::ok)
+      return res;
+
+    *to_next++ = static_cast<wchar_t>(ch);
+    from_next += length;
+  } // while
 
-    const Tab *t = tab;
-    for(; t->char_mask; ++t)
-    {
-      if((start & t->char_mask) == t->char_value)
-        break;
-    }
+  return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
+} // utf8_2_ucs2
 
-    if((from_next + (t - tab)) >= from_end)
+int Arabica::convert::impl::ucs2_2_utf8_length(const wchar_t* from, const wchar_t* from_end, size_t max)
+{
+  const wchar_t* from_next = from;
+  size_t count = 0;
+  while(from_next < from_end)
+  {
+    int length = sequence_length(*from_next);
+    if(!length || (max - count < static_cast<size_t>(length)))
       break;
-
-    unsigned long wide_mask = t->wide_mask;
-
-    *to_next = start;
-    for(; t != tab; --t)
-    {
-      from_next++;
-      *to_next = (*to_next << 6) | ((*from_next ^ 0x80) & 0xff);
-    }
-    *to_next &= wide_mask;
-
+    count += length;
     ++from_next;
-    ++to_next;
   } // while
 
-  return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
-} // utf8_2_ucs2
+  return static_cast<int>(from_next - from);
+} // ucs2_2_utf8_length
+
+int Arabica::convert::impl::utf8_2_ucs2_length(const char* from, const char* from_end, size_t max)
+{
+  const char* from_next = from;
+  for(size_t count = 0; (from_next < from_end) && (count < max); ++count)
+  {
+    unsigned long ch;
+    int length;
+    if(decode(from_next, from_end, ch, length) != std::codecvt_base::ok)
+      break;
+    from_next += length;
+  } // for ...
+
+  return static_cast<int>(from_next - from);
+} // utf8_2_ucs2_length
 // end of file
diff --git a/src/convert/iso88591utf8codecvt.cpp b/src/convert/iso88591utf8codecvt.cpp
index f243c19..f18642a 100644
--- a/src/convert/iso88591utf8codecvt.cpp
+++ b/src/convert/iso88591utf8codecvt.cpp
@@ -38,24 +38,12 @@ std::codecvt_base::result iso88591utf8codecvt::do_unshift(std::mbstate_t& /* sta
   return noconv;
 } // do_unshift
 
-int iso88591utf8codecvt::do_length(const std::mbstate_t&,
+int iso88591utf8codecvt::do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const
 {
-  size_t count(0);
-  const char* from_next = from;
-
-  while((from_next < end) && (count < max))
-  {
-    unsigned char fn = static_cast<unsigned char>(*from_next);
-    if(fn & 0x80)
-      ++count;
-    ++count;
-    ++from_next;
-  } // while
-
-  return static_cast<int>(from_next-from);
+  return impl::iso88591_2_utf8_length(from, end, max);
 } // do_length
 
 // end of file
diff --git a/src/convert/rot13codecvt.cpp b/src/convert/rot13codecvt.cpp
index ac25658..3d59ac2 100644
--- a/src/convert/rot13codecvt.cpp
+++ b/src/convert/rot13codecvt.cpp
@@ -38,12 +38,12 @@ std::codecvt_base::result rot13codecvt::do_unshift(std::mbstate_t& /* state */,
   return std::codecvt_base::ok;
 } // do_unshift
 
-int rot13codecvt::do_length(const std::mbstate_t&,
+int rot13codecvt::do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const
 {
-  return std::max<int>(static_cast<int>(end - from), static_cast<int>(max));
+  return static_cast<int>(std::min<size_t>(end - from, max));
 } // do_length
 
 // end of file
diff --git a/src/convert/ucs2utf8codecvt.cpp b/src/convert/ucs2utf8codecvt.cpp
index 9a28cca..2046b41 100644
--- a/src/convert/ucs2utf8codecvt.cpp
+++ b/src/convert/ucs2utf8codecvt.cpp
@@ -40,25 +40,12 @@ std::codecvt_base::result ucs2utf8codecvt::do_unshift(std::mbstate_t& /* state *
   return std::codecvt_base::noconv;
 } // do_unshift
 
-int ucs2utf8codecvt::do_length(const std::mbstate_t&,
+int ucs2utf8codecvt::do_length(std::mbstate_t&,
                                 const wchar_t* from,
                                 const wchar_t* end,
                                 size_t max) const
 {
-  size_t count(0);
-  const wchar_t* from_next = from;
-
-  while((from_next < end) && (count < max))
-  {
-    if(*from_next > 0x7FF)
-      ++count;
-    if(*from_next > 0x7F)
-      ++count;
-    ++count;
-    ++from_next;
-  } // while
-
-  return static_cast<int>(from_next-from);
+  return impl::ucs2_2_utf8_length(from, end, max);
 } // do_length
 
 // end of file
diff --git a/src/convert/utf16beucs2codecvt.cpp b/src/convert/utf16beucs2codecvt.cpp
index a2f1fd6..ff592b0 100644
--- a/src/convert/utf16beucs2codecvt.cpp
+++ b/src/convert/utf16beucs2codecvt.cpp
@@ -42,12 +42,12 @@ std::codecvt_base::result utf16beucs2codecvt::do_unshift(std::mbstate_t& /* stat
   return noconv;
 } // do_unshift
 
-int utf16beucs2codecvt::do_length(const std::mbstate_t&,
+int utf16beucs2codecvt::do_length(std::mbstate_t&,
                                 const char* from,
                                 const char* end,
                                 size_t max) const
 {
-  return std::max<int>(static_cast<int>(end-from), static_cast<int>(max/2));
+  return impl::utf16_2_ucs2_length(true, from, end, max);
 } // do_length
 
 #endif
diff --git a/src/convert/utf16leucs2codecvt.cpp b/src/convert/utf16leucs2codecvt.cpp
index 17abde7..2f85c73 100644
--- a/src/convert/utf16leucs2codecvt.cpp
+++ b/src/convert/utf16leucs2codecvt.cpp
@@ -42,12 +42,12 @@ std::codecvt_base::result utf16leucs2codecvt::do_unshift(std::mbstate_t& /* stat
   return noconv;
 } // do_unshift
 
-int utf16leucs2codecvt::do_length(const std::mbstate_t&,
+int utf16leucs2codecvt::do_length(std::mbstate_t&,
                                 const char* from,
                                 const char* end,
                                 size_t max) const
 {
-  return std::max<int>(static_cast<int>(end-from), static_cast<int>(max/2));
+  return impl::utf16_2_ucs2_length(false, from, end, max);
 } // do_length
 
 #endif
diff --git a/src/convert/utf16utf8codecvt.cpp b/src/convert/utf16utf8codecvt.cpp
index 690a568..5f524d9 100644
--- a/src/convert/utf16utf8codecvt.cpp
+++ b/src/convert/utf16utf8codecvt.cpp
@@ -40,25 +40,12 @@ std::codecvt_base::result utf16utf8codecvt::do_unshift(std::mbstate_t& /* state
   return std::codecvt_base::noconv;
 } // do_unshift
 
-int utf16utf8codecvt::do_length(const std::mbstate_t&,
+int utf16utf8codecvt::do_length(std::mbstate_t&,
                                 const wchar_t* from,
                                 const wchar_t* end,
                                 size_t max) const
 {
-  size_t count(0);
-  const wchar_t* from_next = from;
-
-  while((from_next < end) && (count < max))
-  {
-    if(*from_next > 0x7FF)
-      ++count;
-    if(*from_next > 0x7F)
-      ++count;
-    ++count;
-    ++from_next;
-  } // while
-
-  return static_cast<int>(from_next-from);
+  return impl::ucs2_2_utf8_length(from, end, max);
 } // do_length
 
 // end of file
diff --git a/src/convert/utf8iso88591codecvt.cpp b/src/convert/utf8iso88591codecvt.cpp
index 0d2c077..993d63a 100644
--- a/src/convert/utf8iso88591codecvt.cpp
+++ b/src/convert/utf8iso88591codecvt.cpp
@@ -39,44 +39,12 @@ std::codecvt_base::result utf8iso88591codecvt::do_unshift(std::mbstate_t& /* sta
   return noconv;
 } // do_unshift
 
-int utf8iso88591codecvt::do_length(const std::mbstate_t&,
+int utf8iso88591codecvt::do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const
 {
-  size_t count(0);
-  const char* from_next = from;
-
-  while((from_next < end) && (count < max))
-  {
-    if(!(*from_next & 0x80))
-    {
-	    ++count;
-      ++from_next;
-    }
-    else if((*from_next&0xc0) == 0xc0)
-    {
-      if(from_next+2 < end)
-      {
-  	    ++count;
-        from_next += 2;
-      }
-      else
-        break;
-    }
-    else if((*from_next&0xe0) == 0xe0)
-    {
-      if(from_next+3 < end)
-      {
-  	    ++count;
-        from_next += 3;
-      }
-      else
-        break;
-    }
-  } // while
-
-  return static_cast<int>(from_next-from);
+  return impl::utf8_2_iso88591_length(from, end, max);
 } // do_length
 
 // end of file
diff --git a/src/convert/utf8ucs2codecvt.cpp b/src/convert/utf8ucs2codecvt.cpp
index d7d89a0..1a00fc5 100644
--- a/src/convert/utf8ucs2codecvt.cpp
+++ b/src/convert/utf8ucs2codecvt.cpp
@@ -40,44 +40,12 @@ std::codecvt_base::result utf8ucs2codecvt::do_unshift(std::mbstate_t& /* state *
   return noconv;
 } // do_unshift
 
-int utf8ucs2codecvt::do_length(const std::mbstate_t&,
+int utf8ucs2codecvt::do_length(std::mbstate_t&,
                                 const char* from,
                                 const char* end,
                                 size_t max) const throw()
 {
-  size_t count(0);
-  const char* from_next = from;
-
-  while((from_next < end) && (count < max))
-  {
-    if(!(*from_next & 0x80))
-    {
-	    ++count;
-      ++from_next;
-    }
-    else if((*from_next&0xc0) == 0xc0)
-    {
-      if(from_next+2 < end)
-      {
-  	    ++count;
-        from_next += 2;
-      }
-      else
-        break;
-    }
-    else if((*from_next&0xe0) == 0xe0)
-    {
-      if(from_next+3 < end)
-      {
-  	    ++count;
-        from_next += 3;
-      }
-      else
-        break;
-    }
-  } // while
-
-  return static_cast<int>(from_next-from);
+  return impl::utf8_2_ucs2_length(from, end, max);
 } // do_length
 
 #endif
-- 
2.43.0


From 0d4a5d65b93b9df258efadfe1dde3c99aea19d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 16/53] fix: base64 encodes NUL bytes and keeps its state with
 the caller, length() is exact

---
 include/convert/base64codecvt.hpp |  21 +--
 src/convert/base64codecvt.cpp     | 227 +++++++++++++-----------------
 2 files changed, 101 insertions(+), 147 deletions(-)

diff --git a/include/convert/base64codecvt.hpp b/include/convert/base64codecvt.hpp
index 22c8d7c..caed2c4 100644
--- a/include/convert/base64codecvt.hpp
+++ b/include/convert/base64codecvt.hpp
@@ -46,31 +46,12 @@ protected:
 
   virtual bool do_always_noconv() const throw() { return false; }
 
-  virtual int do_length(const std::mbstate_t&,
+  virtual int do_length(std::mbstate_t&,
                         const char* from,
                         const char* end,
                         size_t max) const;
 
   virtual int do_max_length() const throw();
-
-private:
-  // state here is a little tricky - we need the previous char and
-  // the state counter, and in some case we need to "pad" the input
-  // strings.  I use these helper functions to mungle them
-  // together and keep the details neater (or try to anyway)
-  mutable int* state_;
-  mutable const char** from_next_;
-  mutable const char** from_end_;
-  void grabState(std::mbstate_t& state) const;
-  void grabFromNext(const char*& from_next) const { from_next_ = &from_next; }
-  void grabFromEnd(const char*& from_end) const { from_end_ = &from_end; }
-
-  int getState() const;
-  void nextState() const;
-  int getCurrentOutChar() const;
-  void consumeOutChar() const;
-  char getPreviousChar() const;
-  void setPreviousChar(char c) const;
 }; // class base64codecvt
 
 } // namespace convert
diff --git a/src/convert/base64codecvt.cpp b/src/convert/base64codecvt.cpp
index ea31d92..57d97db 100644
--- a/src/convert/base64codecvt.cpp
+++ b/src/convert/base64codecvt.cpp
@@ -7,11 +7,46 @@
 #include <convert/base64codecvt.hpp>
 
 static const std::string base64_charset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
-static const int NO_MORE = 256;
 
 using namespace Arabica::convert;
 
-std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
+namespace {
+  // Everything carried from one call to the next lives in the caller's mbstate_t
+  //   position - how far through the current quad, 0 to 3
+  //   finished - the data ran out in this quad, so the rest of it is padding
+  //   previous - the last byte encoded, or the last 6 bits decoded
+  class shift_state
+  {
+  public:
+    explicit shift_state(std::mbstate_t& state) :
+      state_(reinterpret_cast<int*>(&state))
+    {
+      if(*state_ & ~0x1ff03)
+        *state_ = 0;
+    } // shift_state
+
+    int position() const { return *state_ & 0x03; }
+    void next()
+    {
+      int p = (position() + 1) & 0x03;
+      *state_ = (*state_ & ~0x03) | p;
+      if(p == 0)
+        *state_ = 0;
+    } // next
+
+    bool finished() const { return (*state_ & 0x10000) != 0; }
+    void finish() { *state_ |= 0x10000; }
+
+    int previous() const { return (*state_ & 0xff00) >> 8; }
+    void previous(int p) { *state_ = (*state_ & ~0xff00) | ((p & 0xff) << 8); }
+
+  private:
+    int* state_;
+  }; // class shift_state
+
+} // namespace
+
+std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& mbstate,
                         const char* from,
                         const char* from_end,
                         const char*& from_next,
@@ -20,56 +55,60 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
                         char*& to_next) const
 {
   // convert to Base64
-  grabState(state);
-  grabFromNext(from_next);
-  grabFromEnd(from_end);
+  shift_state state(mbstate);
 
   // base64 encode
   from_next = from;
   to_next = to;
 
-  // generate the quad
-  while((to_next != to_limit) && !((getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))) 
+  // the end of the input is the end of the data, so the last quad is completed
+  while((state.position() != 0) || (from_next != from_end)) 
   {
-    char c = getCurrentOutChar();
-    switch(getState())
+    if(to_next == to_limit)
+      return std::codecvt_base::partial;
+
+    if(state.finished())
+    {
+      *to_next++ = '=';
+      state.next();
+      continue;
+    } // if ...
+
+    bool more = (from_next != from_end);
+    int c = more ? static_cast<unsigned char>(*from_next) : 0;
+    switch(state.position())
     {
       case 0:
-        *to_next++ = base64_charset[(c>>2) & 63];
-        consumeOutChar();
+        *to_next++ = base64_charset[c >> 2];
+        state.previous(c);
+        ++from_next;
         break;
       case 1:
-        *to_next++ = base64_charset[((getPreviousChar() & 3) << 4) + ((c >> 4) & 15)];
-        consumeOutChar();
+        *to_next++ = base64_charset[((state.previous() & 3) << 4) + (c >> 4)];
+        state.previous(c);
+        if(more)
+          ++from_next;
+        else
+          state.finish();
         break;
       case 2:
-        *to_next++ = base64_charset[((getPreviousChar() & 15) << 2) + ((c >> 6) & 3)];
-        setPreviousChar(0);
+        *to_next++ = base64_charset[((state.previous() & 15) << 2) + (c >> 6)];
+        if(!more)
+          state.finish();
         break;
       case 3:
-        *to_next++ = base64_charset[(c & 63)];
-        consumeOutChar();
-        setPreviousChar(0);
+        *to_next++ = base64_charset[c & 63];
+        ++from_next;
         break;
     } // switch(s) 
 
-    nextState();
+    state.next();
+  } // while ...
 
-    if((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))
-      break;
-  } // while((from_next < from_end) && (to_next != to_end))
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
-
-  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0)) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return std::codecvt_base::ok;
 } // do_out
 
-std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
+std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& mbstate,
                        const char* from,
                        const char* from_end,
                        const char*& from_next,
@@ -78,143 +117,77 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
                        char*& to_next) const
 {
   // decode Base64
-  grabState(state);
+  shift_state state(mbstate);
   from_next = from;
   to_next = to;
 
   while((from_next != from_end) && (to_next != to_limit))
   {
     char b = *from_next++;
-    size_t i = base64_charset.find(b);
+    std::string::size_type i = base64_charset.find(b);
     if(i == std::string::npos)
     {
-      if(b == '=')
-        nextState();
+      if((b == '=') && (state.position() != 0))
+        state.next();
       continue;
     }
-    char c = static_cast<char>(i);
+    int c = static_cast<int>(i);
 
-    char p = getPreviousChar();
-    switch(getState())
+    int p = state.previous();
+    switch(state.position())
     {
       case 0:
         break;
       case 1:
-        *to_next++ = (p << 2) | (c >> 4);
+        *to_next++ = static_cast<char>((p << 2) | (c >> 4));
         break;
       case 2:
-        *to_next++ = (p << 4) | (c >> 2);
+        *to_next++ = static_cast<char>((p << 4) | (c >> 2));
         break;
       case 3:
-        *to_next++ = (p << 6) | c;
+        *to_next++ = static_cast<char>((p << 6) | c);
         break;
-    } // switch(getState())
-    setPreviousChar(c);
-    nextState();
+    } // switch(state.position())
+    state.previous(c);
+    state.next();
   } // while(to != to_limit)
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial; 
 } // do_in
 
-std::codecvt_base::result base64codecvt::do_unshift(std::mbstate_t& /* state */,
+std::codecvt_base::result base64codecvt::do_unshift(std::mbstate_t& state,
                             char* to,
                             char* to_limit,
                             char*& to_next) const
 {
-  to_next = to;
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
-
-  return (to_next == to_limit) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  // complete the quad if needed
+  const char* nothing = to;
+  return do_out(state, nothing, nothing, nothing, to, to_limit, to_next);
 } // do_unshift
 
-int base64codecvt::do_length(const std::mbstate_t&,
+int base64codecvt::do_length(std::mbstate_t& mbstate,
                         const char* from,
                         const char* end,
 						size_t max) const
 {
-  // 4 base64 chars = 3 chars
-  size_t length(end - from);
-  size_t quads(((length-1) / 4) + 1);
-  size_t chars(quads*3);
-
-  // htis next bit isn't exactly right, but it's close enough
-  while(chars > max)
+  // how much can be decoded into max chars?
+  std::mbstate_t copy = mbstate;
+  const char* from_next = from;
+  while((from_next != end) && (max != 0))
   {
-    length -= 4;
-    chars -= 3;
-  } // while(chars > max)
+    char out;
+    char* out_next;
+    do_in(copy, from_next, end, from_next, &out, &out + 1, out_next);
+    max -= (out_next - &out);
+  } // while ...
 
-  return static_cast<int>(length);
+  return static_cast<int>(from_next - from);
 } // do_length
 
 int base64codecvt::do_max_length() const throw()
 {
-  return 2;
+  return 4;
 } // do_max_length
 
-void base64codecvt::grabState(std::mbstate_t& state) const
-{ 
-  state_ = reinterpret_cast<int*>(&state); 
-  int s = getState();
-  if((s < 0) || (s > 4))
-    *state_ = 0;
-} // grabState
-
-int base64codecvt::getState() const
-{
-  return (*state_) & 0xff;
-} // getState
-
-void base64codecvt::nextState() const
-{
-  int s = getState();
-  s = s + 1;
-  if(s == 4)
-    s = 0;
-
-  *state_ &= 0xffffff00;
-  *state_ |= s;
-} // nextOutState
-
-int base64codecvt::getCurrentOutChar() const
-{
-  if(*from_next_ != *from_end_)
-    return **from_next_;
-
-  return NO_MORE;
-} // getCurrentOutChar
-
-char base64codecvt::getPreviousChar() const
-{
-  return static_cast<char>((*state_ &0xff00) >> 8);
-} // getCurrentOutChar
-
-void base64codecvt::setPreviousChar(char c) const
-{
-  int bc(c);
-  bc <<= 8;
-  bc &= 0xff00;
-
-  *state_ &= 0xffff00ff;
-  *state_ |= bc;
-} // setPreviousOutChar
-
-void base64codecvt::consumeOutChar() const
-{
-  if(*from_next_ != *from_end_)
-  {
-    setPreviousChar(**from_next_);
-    *from_next_ = *from_next_ + 1;
-  } 
-  else
-    setPreviousChar(0);
-}  // consumeOutChar
-
 // end of file
 
-- 
2.43.0


From d936a140030112ae9caa257a7013d482ebe1dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 17/53] fix: converting streams keep incomplete characters,
 deliver everything read and never spin or overrun

---
 include/io/convert_adaptor.hpp | 153 +++++++++++++++++----------------
 include/io/convertstream.hpp   |  20 +++--
 2 files changed, 94 insertions(+), 79 deletions(-)

diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index f891a96..642e3f2 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -18,6 +18,7 @@
 #include <vector>
 #include <algorithm>
 #include <cstring>
+#include <iterator>
 
 #include <SAX/ArabicaConfig.hpp>
 #include <Arabica/mbstate.hpp>
@@ -38,10 +39,10 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     typedef std::basic_streambuf<externalCharT, externalTraitsT> externalStreambufT;
     typedef std::basic_streambuf<charT, traitsT> streambufT;
 
-    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), inEof_(false) { }
+    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), outState_(), inState_(), inEof_(false) { }
     virtual ~convert_bufadaptor() { }
   
-    void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inEof_ = false; }
+    void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inState_ = state_t(); inPending_.clear(); inEof_ = false; }
 
   protected:
     virtual int_type overflow(int_type c = traitsT::eof());
@@ -57,6 +58,7 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     std::vector<charT> outBuffer_;
     state_t outState_;
     std::vector<charT> inBuffer_;
+    std::vector<externalCharT> inPending_;  // read, but not yet converted
     state_t inState_;
     bool inEof_;
 
@@ -120,16 +122,16 @@ typename convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::int
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growOutBuffer()
 {
-  size_t oldsize = outBuffer_.capacity();
+  size_t oldsize = outBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_);
   outBuffer_.resize(newsize);
-  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.capacity());
+  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + newsize);
 } // growOutBuffer
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInBuffer()
 {
-  size_t oldsize = inBuffer_.capacity();
+  size_t oldsize = inBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_) + pbSize_;
   inBuffer_.resize(newsize);
 } // growInBuffer
@@ -137,130 +139,135 @@ void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInB
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOut()
 {
-  size_t length = streambufT::pptr() - &outBuffer_[0];
-  if(!length)
+  if(outBuffer_.empty())
+    return true;
+
+  const charT* from_next = &outBuffer_[0];
+  const charT* const from_end = streambufT::pptr();
+  if(from_next == from_end)
     return true;
 
   bool ok(true);
+  std::ostreambuf_iterator<externalCharT, externalTraitsT> dest(externalbuf_);
   const std::codecvt<charT, externalCharT, state_t>& cvt =
-      std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
+      std::use_facet<std::codecvt<charT, externalCharT, state_t> >(this->getloc());
 
   if(cvt.always_noconv())
-    std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+  {
+    for( ; from_next != from_end; ++from_next)
+      *dest++ = static_cast<externalCharT>(*from_next);
+  }
   else
   {
     // we must do code conversion
-    length += cvt.max_length(); // add a little 
+    const size_t length = (from_end - from_next) + cvt.max_length(); // add a little 
     std::vector<externalCharT> to(length);
-    const charT* from_next = &(outBuffer_[0]);
     std::codecvt_base::result r;
+    bool progress;
 
     do
     {
-      externalCharT* to_next;
-      r = cvt.out(outState_, from_next, streambufT::pptr(), from_next, 
+      const charT* const from = from_next;
+      externalCharT* to_next = &to[0];
+      r = cvt.out(outState_, from, from_end, from_next, 
                   &to[0], &to[0]+length, to_next);
 
       if(r == std::codecvt_base::noconv)
       {
-        std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+        for(from_next = from; from_next != from_end; ++from_next)
+          *dest++ = static_cast<externalCharT>(*from_next);
         break;
       }
-      std::copy(&to[0], to_next, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+      dest = std::copy(&to[0], to_next, dest);
+      progress = (from_next != from) || (to_next != &to[0]);
     }
-    while(r == std::codecvt_base::partial);
+    while((r == std::codecvt_base::partial) && progress);
 
-    ok = ok ? (r != std::codecvt_base::error) : false;
+    ok = (r != std::codecvt_base::error);
+    if(!ok)
+      from_next = from_end; // can't do any more with these
   } // if(cvt.always_noconv())
- 
-  if(ok)
-    streambufT::setp(&outBuffer_[0], &outBuffer_[0] + outBuffer_.capacity());
 
-  return ok;
+  // hang on to any incomplete character, the rest of it might be along later
+  size_t remaining = from_end - from_next;
+  std::copy(from_next, from_end, outBuffer_.begin());
+  streambufT::setp(&outBuffer_[0] + remaining, &outBuffer_[0] + outBuffer_.size());
+
+  return ok && !dest.failed();
 } // flushOut
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::readIn()
 {
-  if(!inBuffer_.capacity())
+  if(inBuffer_.empty())
     growInBuffer();
 
   size_t pbCount = std::min<size_t>(streambufT::gptr() - streambufT::eback(), pbSize_);
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT),
-         streambufT::gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  std::copy(streambufT::gptr() - pbCount, streambufT::gptr(), 
+            inBuffer_.begin() + (pbSize_ - pbCount));
 
   const std::codecvt<charT, externalCharT, state_t>& cvt =
-      std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
-
-  externalCharT from[1024];
+      std::use_facet<std::codecvt<charT, externalCharT, state_t> >(this->getloc());
 
-  std::streamsize res = 0;
-  if(!inEof_)
+  const size_t minimumRoom = 16;
+  size_t converted = 0;
+  while((converted == 0) && !inEof_)
   {
+    // add to whatever was left over from last time
     external_int_type ec = externalbuf_->sgetc();
-    while((!externalTraitsT::eq_int_type(externalTraitsT::eof(), ec)) && (res != bufferSize_))
+    while((!externalTraitsT::eq_int_type(externalTraitsT::eof(), ec)) && 
+          (inPending_.size() < static_cast<size_t>(bufferSize_)))
     {
-      from[res++] = static_cast<externalCharT>(ec);
+      inPending_.push_back(externalTraitsT::to_char_type(ec));
       ec = externalbuf_->snextc();
     }
-    inEof_ = (externalTraitsT::eq_int_type(externalTraitsT::eof(), ec));
-  } // if ...
+    inEof_ = externalTraitsT::eq_int_type(externalTraitsT::eof(), ec);
+    if(inPending_.empty())
+      break;
 
-  std::streamsize converted = 0;
-  if(res > 0)
-  {
+    const externalCharT* from_next = &inPending_[0];
+    const externalCharT* const from_end = from_next + inPending_.size();
     std::codecvt_base::result r;
-    const externalCharT* from_next = from;
+    bool progress;
     do
     {
-      // can't cache this as may reallocate buffer
-      charT* const to = &(inBuffer_[0])+pbSize_;
-      charT* const to_end = &(inBuffer_[0]) + inBuffer_.capacity() - pbSize_;
-      charT* to_next;
+      if(inBuffer_.size() - pbSize_ - converted < minimumRoom)
+        growInBuffer();  // need more room!
+
+      const externalCharT* const from = from_next;
+      charT* const to = &inBuffer_[0] + pbSize_ + converted;
+      charT* const to_end = &inBuffer_[0] + inBuffer_.size();
+      charT* to_next = to;
 
-      externalCharT* const from_end = from + res;
-      
-      r = cvt.in(inState_, from_next, from_end, from_next,
-                 to + converted, to_end, to_next);
+      r = cvt.in(inState_, from, from_end, from_next,
+                 to, to_end, to_next);
 
       if(r == std::codecvt_base::noconv)
       {
-        memcpy(&(inBuffer_[0])+pbSize_, from, res);
-        converted = res;
+        for(from_next = from, to_next = to; (from_next != from_end) && (to_next != to_end); )
+          *to_next++ = static_cast<charT>(*from_next++);
+        if(from_next != from_end)
+          r = std::codecvt_base::partial;
       }
-      else
-        converted += static_cast<std::streamsize>(to_next - (to + converted));
 
-      if(r == std::codecvt_base::partial)
-      {
-        // haven't done everything
-        if(to_next == to_end)
-          growInBuffer();  // need more room!
-        else
-        {
-          int shortfall = (from + res) - from_next;
-          memcpy(from, from_next, shortfall);
-          res = externalbuf_->sgetn(from + shortfall, static_cast<std::streamsize>(bufferSize_ - shortfall));
-          from_next = &from[0];
-          if(res == 0) // oh dear
-            break; // let's bail!
-          res += shortfall;
-        }
-      } // if(r == std::codecvt_base::partial)
+      progress = (from_next != from) || (to_next != to);
+      converted += to_next - to;
     }
-    while(r == std::codecvt_base::partial);
+    while((r == std::codecvt_base::partial) && progress && (from_next != from_end));
+
+    inPending_.erase(inPending_.begin(), inPending_.begin() + (from_next - &inPending_[0]));
 
     if(r == std::codecvt_base::error)
     {
       // couldn't convert - let's bail
-      return 0;
+      inPending_.clear();
+      inEof_ = true;
     } // if(r == std::codecvt_base::error)
-  }
+  } // while ...
 
   streambufT::setg(&(inBuffer_[0]) + (pbSize_-pbCount), &(inBuffer_[0])+pbSize_, &(inBuffer_[0])+pbSize_+converted);
 
-  return static_cast<int_type>(res);
+  return static_cast<std::streamsize>(converted);
 } // readIn
 
 ////////////////////////////////////////////////////
@@ -297,9 +304,9 @@ class iconvert_adaptor : private convert_adaptor_buffer<charT, traitsT, fromChar
 
     virtual ~iconvert_adaptor() { } 
 
-    baseBufT* rdbuf() const 
+    convert_bufadaptor<charT, traitsT, fromCharT, fromTraitsT>* rdbuf() const 
     { 
-      return const_cast<baseBufT*>(&bufadaptor_); 
+      return const_cast<convert_bufadaptor<charT, traitsT, fromCharT, fromTraitsT>*>(&bufadaptor_); 
     } // rdbuf
 
     void set_stream(fromStreamT& fromStream) { bufadaptor_.set_buffer(*fromStream.rdbuf()); }
@@ -331,7 +338,7 @@ class oconvert_adaptor : private convert_adaptor_buffer<charT, traitsT, toCharT,
       baseStreamT::flush(); 
     } // ~oconvert_adaptor
 
-    convert_bufadaptor<charT, traitsT>* rdbuf() const
+    convert_bufadaptor<charT, traitsT, toCharT, toTraitsT>* rdbuf() const
     {
       return const_cast<convert_bufadaptor<charT, traitsT, toCharT, toTraitsT>*>(&bufadaptor_); 
     } // rdbuf
diff --git a/include/io/convertstream.hpp b/include/io/convertstream.hpp
index 8459dba..5d10a9a 100644
--- a/include/io/convertstream.hpp
+++ b/include/io/convertstream.hpp
@@ -100,11 +100,12 @@ public:
       std::fill_n(to_, toSize_, 0);
   } // basic_iconvertstream
 
-  explicit basic_iconvertstream(const stringT& str, std::ios_base::openmode mode = std::ios_base::in) : 
+  explicit basic_iconvertstream(const fromStringT& from, std::ios_base::openmode mode = std::ios_base::in) : 
     convertstreambuf_initT(mode | std::ios_base::in),
     std::basic_istream<charT, traitsT>(convertstreambuf_initT::buf())
   {
-    str(str);
+    std::fill_n(to_, toSize_, 0);
+    str(from);
   } // basic_iconvertstream
 
   virtual ~basic_iconvertstream()
@@ -136,10 +137,12 @@ public:
     stringT converted;
     const fromCharT* from_next = str.data();
     typename std::codecvt_base::result r;
-    typename traitsT::state_type state;
+    typename traitsT::state_type state = typename traitsT::state_type();
+    bool progress;
 
     do
     {
+      const fromCharT* const from = from_next;
       charT* to_next;
       r = cvt.in(state, from_next, str.data() + str.length(), from_next, 
                  to_, to_ + toSize_, to_next);
@@ -149,8 +152,9 @@ public:
         break;
       }
       converted.append(to_, (to_next - to_));
+      progress = (from_next != from) || (to_next != to_);
     }
-    while(r == std::codecvt_base::partial);
+    while((r == std::codecvt_base::partial) && progress);
 
     // naughty! ignore (r == std::codecvt_base::error)
     convertstreambuf_initT::buf()->str(converted); 
@@ -198,6 +202,7 @@ public:
       convertstreambuf_initT(mode | std::ios_base::out),
       std::basic_ostream<charT, traitsT>(convertstreambuf_initT::buf())
   { 
+    std::fill_n(to_, toSize_, 0);
     convertstreambuf_initT::buf()->str(str);
   } // basic_oconvertstream
 
@@ -228,10 +233,12 @@ public:
       // we must do code conversion
       const charT* from_next = newstuff.data();
       typename std::codecvt_base::result r;
-      typename traitsT::state_type state;
+      typename traitsT::state_type state = typename traitsT::state_type();
+      bool progress;
 
       do
       {
+        const charT* const from = from_next;
         toCharT* to_next;
         r = cvt.out(state, from_next, newstuff.data() + newstuff.length(), from_next, 
                     to_, to_ + toSize_, to_next);
@@ -241,8 +248,9 @@ public:
           break;
         }
         out.append(to_, (to_next - to_));
+        progress = (from_next != from) || (to_next != to_);
       }
-      while(r == std::codecvt_base::partial);
+      while((r == std::codecvt_base::partial) && progress);
       // naughty! ignore (r == std::codecvt_base::error)
     } // if(cvt.always_noconv())
 
-- 
2.43.0


From 24f2093aa03d27119561a521648e50c0194fc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 18/53] fix: the char to wchar_t codecvt has max_length() and
 unshift(), so stream adaptors can use it

---
 include/convert/impl/codecvt_specialisations.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/convert/impl/codecvt_specialisations.hpp b/include/convert/impl/codecvt_specialisations.hpp
index cac5bde..651526e 100644
--- a/include/convert/impl/codecvt_specialisations.hpp
+++ b/include/convert/impl/codecvt_specialisations.hpp
@@ -66,6 +66,19 @@ public:
     return this->do_length(state, from, end, max);
   } // length
 
+  int max_length() const throw()
+  {
+    return this->do_max_length();
+  } // max_length
+
+  codecvt_base::result unshift(std::mbstate_t& state,
+                               wchar_t* to,
+                               wchar_t* to_limit,
+                               wchar_t*& to_next) const
+  {
+    return this->do_unshift(state, to, to_limit, to_next);
+  } // unshift
+
 protected:
   virtual ~codecvt() { }
 
-- 
2.43.0


From c559470f832b852ee2446966fe2b6d2581055ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:00 +0000
Subject: [PATCH 19/53] fix: expat wrapper reports each namespace's scope once,
 and every namespace violation

xmlnsfoo is an ordinary attribute, prefix mappings end with the element which
declared them, the xml prefix has no mapping events, and duplicate expanded
attribute names, reserved namespace names and empty prefix bindings are
reported.  Handlers may be set part way through a parse.
---
 include/SAX/wrappers/saxexpat.hpp | 66 +++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..9bc4152 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -266,6 +266,8 @@ class expat_wrapper :
 
   private:
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
+    bool isNamespaceDeclaration(const string_type& attQName) const;
+    void declareNamespace(const string_type& prefix, const string_type& uri);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
   
@@ -582,8 +584,6 @@ template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const char** atts)
 {
   bool pushedContext = false;
-  if(!contentHandler_)
-    return;
 
   if(!namespaces_)
   {
@@ -604,7 +604,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*a1++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) == 0) 
+      if(isNamespaceDeclaration(attQName))
       {
         if (!pushedContext)
         {
@@ -616,9 +616,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
         typename SA::size_type n = SA::find(attQName, nsc_.colon);
         if(n != SA::npos())
           prefix = SA::construct(SA::begin(attQName) + n + 1, SA::end(attQName));
-        if(!nsSupport_.declarePrefix(prefix, value)) 
-          reportError(std::string("Illegal Namespace prefix ") + SA::asStdString(prefix));
-        contentHandler_->startPrefixMapping(prefix, value);
+        declareNamespace(prefix, value);
         if(prefixes_)
           attributes.addAttribute(emptyString_, 
                                   emptyString_, 
@@ -634,9 +632,12 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*atts++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) != 0) 
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
+        if(attName.has_namespaceUri() &&
+           attributes.getIndex(attName.namespaceUri(), attName.localName()) != -1)
+          reportError(std::string("Duplicate attribute ") + SA::asStdString(attQName));
         attributes.addAttribute(attName.namespaceUri(), 
                                 attName.localName(), 
                                 attName.rawName(), 
@@ -649,9 +650,40 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
   namespaceContextCreated_.push_back(pushedContext);
   // at last! report the event
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
-  contentHandler_->startElement(name.namespaceUri(), name.localName(), name.rawName(), attributes);
+  if(contentHandler_)
+    contentHandler_->startElement(name.namespaceUri(), name.localName(), name.rawName(), attributes);
 } // startElement
 
+template<class string_type, class T0, class T1>
+bool expat_wrapper<string_type, T0, T1>::isNamespaceDeclaration(const string_type& attQName) const
+{
+  // xmlns or xmlns:prefix, but not xmlnsomething
+  if(SA::find(attQName, nsc_.xmlns) != 0)
+    return false;
+  return (SA::length(attQName) == SA::length(nsc_.xmlns)) ||
+         (SA::find(attQName, nsc_.colon) == SA::length(nsc_.xmlns));
+} // isNamespaceDeclaration
+
+template<class string_type, class T0, class T1>
+void expat_wrapper<string_type, T0, T1>::declareNamespace(const string_type& prefix, const string_type& uri)
+{
+  // xml may be declared, but only as itself, and there are no prefix mapping events for it
+  const bool xmlUri = (uri == nsc_.xml_uri);
+  if((prefix == nsc_.xml) && xmlUri)
+    return;
+
+  if(!nsSupport_.declarePrefix(prefix, uri)) 
+  {
+    reportError(std::string("Illegal Namespace prefix ") + SA::asStdString(prefix));
+    return;
+  } // if ...
+  if(xmlUri || (uri == nsc_.xmlns11_uri) || (SA::empty(uri) && !SA::empty(prefix)))
+    reportError(std::string("Illegal Namespace declaration for prefix ") + SA::asStdString(prefix));
+
+  if(contentHandler_)
+    contentHandler_->startPrefixMapping(prefix, uri);
+} // declareNamespace
+
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::startElementNoNS(const char* qName, const char** atts)
 {
@@ -672,32 +704,32 @@ void expat_wrapper<string_type, T0, T1>::startElementNoNS(const char* qName, con
     } // while ..
   } // if ...
 
-  contentHandler_->startElement(emptyString_, emptyString_, SA::construct_from_utf8(qName), attributes);
+  if(contentHandler_)
+    contentHandler_->startElement(emptyString_, emptyString_, SA::construct_from_utf8(qName), attributes);
 } // startElementNoNS
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 {
-  if(!contentHandler_)
-    return;
-
   if(!namespaces_)
   {
     endElementNoNS(qName);
     return;
   } // if(!namespaces_)
 
-  qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
-  contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
+  qualifiedNameT name = nsSupport_.processName(SA::construct_from_utf8(qName), false);
+  if(contentHandler_)
+    contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
     nsSupport_.popContext();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      if(contentHandler_)
+        contentHandler_->endPrefixMapping(prefixes[i]);
   }
 } // endElement
 
-- 
2.43.0


From 367e3997d8dc6927c2f7e40d6af800cb0529c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 20/53] fix: expat wrapper is left clean by a failed parse, and
 reports one fatal error

Namespace contexts, declared entities, the parsing flag and expat itself are
reset however the parse ends, including by an exception from a handler.  An
error within an external entity is reported once, as itself, and a stream
which fails ends the document instead of looping for ever.
---
 include/SAX/wrappers/saxexpat.hpp | 56 +++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 9bc4152..6a78941 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -312,6 +312,21 @@ class expat_wrapper :
 
 
   private:
+    // while a document is being parsed - however the parse finishes, 
+    // nothing it leaves behind must affect the next one
+    class ParseScope
+    {
+    public:
+      ParseScope(expat_wrapper& wrapper) : wrapper_(wrapper) { wrapper_.parsing_ = true; }
+      ~ParseScope() { wrapper_.reset(); }
+    private:
+      expat_wrapper& wrapper_;
+      ParseScope(const ParseScope&);
+      ParseScope& operator=(const ParseScope&);
+    }; // class ParseScope
+    friend class ParseScope;
+
+    void reset();
     void setCallbacks();
     void startElementNoNS(const char* qName, const char** atts);
     void endElementNoNS(const char* qName);
@@ -330,6 +345,7 @@ class expat_wrapper :
     string_type publicId_;
     string_type systemId_;
     bool parsing_;
+    bool fatalReported_;
 
     // features
     bool namespaces_;
@@ -357,6 +373,7 @@ expat_wrapper<string_type, T0, T1>::expat_wrapper() :
   lexicalHandler_(0),
   parser_(XML_ParserCreate(0)),
   parsing_(false),
+  fatalReported_(false),
   namespaces_(true),
   prefixes_(true),
   externalResolving_(false)
@@ -461,7 +478,7 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
-  parsing_ = true;
+  ParseScope scope(*this);
 
   if(contentHandler_)
     contentHandler_->startDocument();
@@ -472,11 +489,18 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   if(contentHandler_)
     contentHandler_->endDocument();
+} // parse
 
+template<class string_type, class T0, class T1>
+void expat_wrapper<string_type, T0, T1>::reset()
+{
   parsing_ = false;
-
+  fatalReported_ = false;
+  nsSupport_.reset();
+  namespaceContextCreated_.clear();
+  declaredExternalEnts_.clear();
   XML_ParserReset(parser_, 0);
-} // parse
+} // reset
 
 template<class string_type, class T0, class T1>
 bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Parser parser)  
@@ -489,7 +513,8 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
   } // if(is.resolver() == 0)
 
   const int BUFF_SIZE = 10*1024;
-  while(!is.resolve()->eof())
+  bool finished = false;
+  while(!finished)
   {
     char* buffer = (char*)XML_GetBuffer(parser, BUFF_SIZE);
     if(buffer == NULL)
@@ -499,10 +524,12 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     } // if ...
 
     is.resolve()->read(buffer, BUFF_SIZE);
-    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
+    // a short read is the end of the stream, or an error from which it can't recover
+    finished = !*is.resolve();
+    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), finished) == 0)
     {
       // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser_)), true);
+      reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
@@ -547,6 +574,12 @@ typename XML::QualifiedName<string_type, typename expat_wrapper<string_type, T0,
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::reportError(const std::string& message, bool fatal)
 {
+  // an error in an external entity stops the document too, but it's been reported
+  if(fatal && fatalReported_)
+    return;
+  if(fatal)
+    fatalReported_ = true;
+
   if(!errorHandler_)
     return;
   
@@ -1054,11 +1087,14 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
     source.setSystemId(sysId);
   } // if ...
 
-  XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
-
-  bool ok = do_parse(source, externalParser);
+  struct ExternalParser
+  {
+    ExternalParser(XML_Parser p) : parser(p) { }
+    ~ExternalParser() { XML_ParserFree(parser); }
+    XML_Parser parser;
+  } external(XML_ExternalEntityParserCreate(parser, context, 0));
 
-  XML_ParserFree(externalParser);
+  bool ok = do_parse(source, external.parser);
 
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
-- 
2.43.0


From 9370f394a55062a2ef35be89804ec3b82ad475f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:39 +0000
Subject: [PATCH 21/53] fix: parameter entities are reported with a leading %,
 as SAX has it, and are not DOM entities

---
 include/DOM/SAX2DOM/SAX2DOM.hpp   | 10 ++++++++--
 include/SAX/filter/Writer.hpp     | 10 ++++++++--
 include/SAX/wrappers/saxexpat.hpp |  6 ++++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index dba8c66..e146296 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -381,9 +381,15 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
         documentType_->addElementId(attributeName);
     } // attributeDecl
 
+    static bool isParameterEntity(const stringT& name)
+    {
+      static const stringT PERCENT = string_adaptorT::construct_from_utf8("%");
+      return string_adaptorT::find(name, PERCENT) == 0;
+    } // isParameterEntity
+
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
@@ -432,7 +438,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..59d1292 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -692,8 +692,14 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << UnicodeT::CAPITAL_I
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_Y
-           << UnicodeT::SPACE
-           << name;
+           << UnicodeT::SPACE;
+  // %name is the parameter entity called name
+  if(!name.empty() && (name[0] == UnicodeT::PERCENT_SIGN))
+    *stream_ << UnicodeT::PERCENT_SIGN
+             << UnicodeT::SPACE
+             << name.substr(1);
+  else
+    *stream_ << name;
 } // startEntityDecl
 
 template<class string_type, class string_adaptor>
diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 6a78941..fa51f3a 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -931,7 +931,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entityName,
-                           int /*is_parameter_entity*/,
+                           int is_parameter_entity,
                            const XML_Char* value,
                            int value_length,
                            const XML_Char* /*base*/,
@@ -950,7 +950,9 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
    provided. The notationName argument will have a non-null value only
    for unparsed entity declarations. */
 
-  const string_type s_entityName(SA::construct_from_utf8(entityName));
+  // parameter entity names are marked with a leading %
+  string_type s_entityName(SA::construct_from_utf8(is_parameter_entity ? "%" : ""));
+  SA::append(s_entityName, SA::construct_from_utf8(entityName));
   if(!systemId && !publicId && !notationName)
   {
     // internal entity!
-- 
2.43.0


From 711a6a3531cfd86fa1ebe65c8eb94fa06e9439cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:32 +0000
Subject: [PATCH 22/53] fix: libxml2 wrapper reports every namespace violation,
 and xmlnsfoo is an ordinary attribute

Duplicate expanded attribute names, reserved namespace names and empty prefix
bindings are reported, the xml prefix has no mapping events, and handlers may
be set part way through a parse.
---
 include/SAX/wrappers/saxlibxml2.hpp | 77 ++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index b693b52..e923662 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -209,6 +209,8 @@ class libxml2_wrapper :
 
 
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
+    bool isNamespaceDeclaration(const string_type& attQName) const;
+    void declareNamespace(const string_type& prefix, const string_type& uri);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
 
@@ -545,9 +547,6 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
   if(isInCData_)
     SAXendCdataSection();
 
-  if(!contentHandler_)
-    return;
-
   if(!namespaces_)
   {
     SAXstartElementNoNS(qName, atts);
@@ -568,15 +567,13 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*a1++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) == 0)
+      if(isNamespaceDeclaration(attQName))
       {
         string_type prefix;
         typename string_adaptor::size_type n = string_adaptor::find(attQName, nsc_.colon);
         if(n != string_adaptor::npos())
           prefix = string_adaptor::construct(string_adaptor::begin(attQName) + n + 1, string_adaptor::end(attQName));
-        if(!nsSupport_.declarePrefix(prefix, value))
-          reportError(std::string("Illegal Namespace prefix ") + string_adaptor::asStdString(prefix));
-        contentHandler_->startPrefixMapping(prefix, value);
+        declareNamespace(prefix, value);
         if(prefixes_)
           attributes.addAttribute(emptyString_,
                                   emptyString_,
@@ -592,9 +589,12 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*atts++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) != 0)
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
+        if(attName.has_namespaceUri() &&
+           attributes.getIndex(attName.namespaceUri(), attName.localName()) != -1)
+          reportError(std::string("Duplicate attribute ") + string_adaptor::asStdString(attQName));
         attributes.addAttribute(attName.namespaceUri(),
                                 attName.localName(),
                                 attName.rawName(),
@@ -606,12 +606,43 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
 
   // at last! report the event
   qualifiedNameT name = processName(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(qName)), false);
-  contentHandler_->startElement(name.namespaceUri(),
-				name.localName(),
-				name.rawName(),
-				attributes);
+  if(contentHandler_)
+    contentHandler_->startElement(name.namespaceUri(),
+                                  name.localName(),
+                                  name.rawName(),
+                                  attributes);
 } // SAXstartElement
 
+template<class string_type, class T0, class T1>
+bool libxml2_wrapper<string_type, T0, T1>::isNamespaceDeclaration(const string_type& attQName) const
+{
+  // xmlns or xmlns:prefix, but not xmlnsomething
+  if(string_adaptor::find(attQName, nsc_.xmlns) != 0)
+    return false;
+  return (string_adaptor::length(attQName) == string_adaptor::length(nsc_.xmlns)) ||
+         (string_adaptor::find(attQName, nsc_.colon) == string_adaptor::length(nsc_.xmlns));
+} // isNamespaceDeclaration
+
+template<class string_type, class T0, class T1>
+void libxml2_wrapper<string_type, T0, T1>::declareNamespace(const string_type& prefix, const string_type& uri)
+{
+  // xml may be declared, but only as itself, and there are no prefix mapping events for it
+  const bool xmlUri = (uri == nsc_.xml_uri);
+  if((prefix == nsc_.xml) && xmlUri)
+    return;
+
+  if(!nsSupport_.declarePrefix(prefix, uri))
+  {
+    reportError(std::string("Illegal Namespace prefix ") + string_adaptor::asStdString(prefix));
+    return;
+  } // if ...
+  if(xmlUri || (uri == nsc_.xmlns11_uri) || (string_adaptor::empty(uri) && !string_adaptor::empty(prefix)))
+    reportError(std::string("Illegal Namespace declaration for prefix ") + string_adaptor::asStdString(prefix));
+
+  if(contentHandler_)
+    contentHandler_->startPrefixMapping(prefix, uri);
+} // declareNamespace
+
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::SAXstartElementNoNS(const xmlChar* qName, const xmlChar** atts)
 {
@@ -635,7 +666,8 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElementNoNS(const xmlChar* qN
     } // while ..
   } // if ...
 
-  contentHandler_->startElement(emptyString_, emptyString_, string_adaptor::construct_from_utf8((reinterpret_cast<const char*>(qName))), attributes);
+  if(contentHandler_)
+    contentHandler_->startElement(emptyString_, emptyString_, string_adaptor::construct_from_utf8((reinterpret_cast<const char*>(qName))), attributes);
 } // SAXstartElementNoNS
 
 template<class string_type, class T0, class T1>
@@ -644,23 +676,22 @@ void libxml2_wrapper<string_type, T0, T1>::SAXendElement(const xmlChar* qName)
   if(isInCData_)
     SAXendCdataSection();
 
-  if(!contentHandler_)
-    return;
-
   if(!namespaces_)
   {
     SAXendElementNoNS(qName);
     return;
   } // if(!namespaces_)
 
-  qualifiedNameT name = processName(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(qName)), false);
-  contentHandler_->endElement(name.namespaceUri(),
-			      name.localName(),
-			      name.rawName());
-  typename NamespaceSupport<string_type, string_adaptor>::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
+  qualifiedNameT name = nsSupport_.processName(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(qName)), false);
+  if(contentHandler_)
+    contentHandler_->endElement(name.namespaceUri(),
+                                name.localName(),
+                                name.rawName());
+  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
   nsSupport_.popContext();
+  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+    if(contentHandler_)
+      contentHandler_->endPrefixMapping(prefixes[i]);
 } // SAXendElement
 
 template<class string_type, class T0, class T1>
-- 
2.43.0


From 9b4cf99bce88e170033dfc62c875fade76472852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 23/53] fix: mixed content models are reported with a | after
 #PCDATA

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index fa51f3a..b88d97b 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -878,7 +878,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if((i != 0) || (model->type == XML_CTYPE_MIXED))
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
-- 
2.43.0


From 5f79b934bb481c425b98d1c468acf34f5c3ebc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:14 +0000
Subject: [PATCH 24/53] fix: a namespace declaration has to be a qname too

---
 include/SAX/wrappers/saxexpat.hpp   | 1 +
 include/SAX/wrappers/saxlibxml2.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index b88d97b..a7ccb4b 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -645,6 +645,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
             pushedContext = true;            
         }
 
+        nsSupport_.processName(attQName, true); // throws if it isn't a qname
         string_type prefix;
         typename SA::size_type n = SA::find(attQName, nsc_.colon);
         if(n != SA::npos())
diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index e923662..0a5e315 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -569,6 +569,7 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       // declaration?
       if(isNamespaceDeclaration(attQName))
       {
+        nsSupport_.processName(attQName, true); // throws if it isn't a qname
         string_type prefix;
         typename string_adaptor::size_type n = string_adaptor::find(attQName, nsc_.colon);
         if(n != string_adaptor::npos())
-- 
2.43.0


From 24b880b2a537baa73f28a54fbe99688a633bdfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0000
Subject: [PATCH 25/53] fix: xerces wrapper puts surrogate pairs back together,
 so no character is lost

---
 include/SAX/wrappers/saxxerces.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxxerces.hpp b/include/SAX/wrappers/saxxerces.hpp
index 82cf335..1d9127f 100644
--- a/include/SAX/wrappers/saxxerces.hpp
+++ b/include/SAX/wrappers/saxxerces.hpp
@@ -202,8 +202,19 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
           if(str && length)
           {
             std::vector<wchar_t> buffer;
-            std::copy(str, str+length, inserter(buffer, buffer.begin()));
-            return base::construct_from_utf16(&buffer[0], length);
+            buffer.reserve(length);
+            for(int i = 0; i != length; ++i)
+            {
+              const unsigned long unit = str[i];
+              // where wchar_t holds whole characters, surrogate pairs have to be put together
+              if((sizeof(wchar_t) > 2) && 
+                 (unit >= 0xD800) && (unit <= 0xDBFF) && 
+                 (i + 1 != length) && (str[i+1] >= 0xDC00) && (str[i+1] <= 0xDFFF))
+                buffer.push_back(static_cast<wchar_t>(0x10000 + ((unit - 0xD800) << 10) + (str[++i] - 0xDC00)));
+              else
+                buffer.push_back(static_cast<wchar_t>(unit));
+            } // for ...
+            return base::construct_from_utf16(&buffer[0], static_cast<int>(buffer.size()));
           }
           else
             return string_type();
-- 
2.43.0


From 779d0ee5068032b1565aa3ecb5abfc8e791e5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:39 +0000
Subject: [PATCH 26/53] fix: expat wrapper makes a fresh parser for each parse,
 so nothing carries over

---
 include/SAX/wrappers/saxexpat.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a7ccb4b..f39d04f 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -499,7 +499,9 @@ void expat_wrapper<string_type, T0, T1>::reset()
   nsSupport_.reset();
   namespaceContextCreated_.clear();
   declaredExternalEnts_.clear();
-  XML_ParserReset(parser_, 0);
+  // an exception from a handler leaves expat in a state XML_ParserReset can't mend
+  XML_ParserFree(parser_);
+  parser_ = XML_ParserCreate(0);
 } // reset
 
 template<class string_type, class T0, class T1>
-- 
2.43.0


From 794db0a1846b332e012397267c20a806b7a9de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:39 +0000
Subject: [PATCH 27/53] fix: libxml2 wrapper starts each parse clean, reports a
 fatal error once, and a missing source as one

---
 include/SAX/wrappers/saxlibxml2.hpp | 82 +++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 0a5e315..972457b 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -215,6 +215,22 @@ class libxml2_wrapper :
     void checkNotParsing(const string_type& type, const string_type& name) const;
 
   private:
+    // while a document is being parsed - however the parse finishes,
+    // nothing it leaves behind must affect the next one
+    class ParseScope
+    {
+    public:
+      ParseScope(libxml2_wrapper& wrapper) : wrapper_(wrapper) { wrapper_.parsing_ = true; }
+      ~ParseScope() { wrapper_.reset(); }
+    private:
+      libxml2_wrapper& wrapper_;
+      ParseScope(const ParseScope&);
+      ParseScope& operator=(const ParseScope&);
+    }; // class ParseScope
+    friend class ParseScope;
+
+    void reset();
+
     // member variables
     entityResolverT* entityResolver_;
     dtdHandlerT* dtdHandler_;
@@ -228,6 +244,8 @@ class libxml2_wrapper :
 		xmlSAXLocatorPtr locator_;
 
     bool parsing_;
+    bool documentStarted_;
+    bool fatalReported_;
 
     bool namespaces_;
     bool prefixes_;
@@ -250,6 +268,8 @@ libxml2_wrapper<string_type, T0, T1>::libxml2_wrapper() :
   lexicalHandler_(0),
   locator_(0),
   parsing_(false),
+  documentStarted_(false),
+  fatalReported_(false),
   isInCData_(false),
   namespaces_(true),
   prefixes_(true)
@@ -355,6 +375,12 @@ typename XML::QualifiedName<string_type, typename libxml2_wrapper<string_type, T
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::reportError(const std::string& message, bool fatal)
 {
+  // there's only ever one fatal error
+  if(fatal && fatalReported_)
+    return;
+  if(fatal)
+    fatalReported_ = true;
+
   if(!errorHandler_)
     return;
 
@@ -414,29 +440,47 @@ void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
+  ParseScope scope(*this);
+
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
+  {
+    reportError("Could not resolve XML document", true);
     return;
+  } // if ...
 
-  parsing_ = true;
-
-	while(!is.resolve()->eof())
- 	{
-		char buffer[4096];
-		is.resolve()->read(buffer, sizeof(buffer));
-		xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), is.resolve()->eof());
-	} // while(!in.eof())
-
-  xmlCtxtResetPush(context_, 0, 0, 0, 0);
+  bool finished = false;
+  while(!finished)
+  {
+    char buffer[4096];
+    is.resolve()->read(buffer, sizeof(buffer));
+    // a short read is the end of the stream, or an error from which it can't recover
+    finished = !*is.resolve();
+    xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), finished);
+  } // while(!finished)
+} // parse
 
+template<class string_type, class T0, class T1>
+void libxml2_wrapper<string_type, T0, T1>::reset()
+{
   parsing_ = false;
-} // parse
+  isInCData_ = false;
+  documentStarted_ = false;
+  fatalReported_ = false;
+  nsSupport_.reset();
+
+  // libxml2 keeps its options, but not the document a failed parse leaves behind
+  if(context_->myDoc)
+    xmlFreeDoc(context_->myDoc);
+  context_->myDoc = 0;
+  xmlCtxtResetPush(context_, 0, 0, 0, 0);
+  context_->charset = XML_CHAR_ENCODING_NONE; // so the next document's encoding is detected
+} // reset
 
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::SAXstartDocument()
 {
-  if(isInCData_)
-    SAXendCdataSection();
+  documentStarted_ = true;
 
   if(contentHandler_)
     contentHandler_->startDocument();
@@ -448,6 +492,10 @@ void libxml2_wrapper<string_type, T0, T1>::SAXendDocument()
   if(isInCData_)
     SAXendCdataSection();
 
+  // libxml2 gives up on some documents before starting them
+  if(!documentStarted_)
+    return;
+
   if(contentHandler_)
     contentHandler_->endDocument();
 } // SAXendDocument
@@ -486,15 +534,15 @@ void libxml2_wrapper<string_type, T0, T1>::SAXwarning(const std::string& warning
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::SAXerror(const std::string& error)
 {
-  if(errorHandler_)
-    errorHandler_->error(SAXParseExceptionT(error, *this));
+  // libxml2 reports fatal errors this way too
+  xmlErrorPtr last = xmlCtxtGetLastError(context_);
+  reportError(error, (last != 0) && (last->level == XML_ERR_FATAL));
 } // error
 
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::SAXfatalError(const std::string& fatal)
 {
-  if(errorHandler_)
-    errorHandler_->fatalError(SAXParseExceptionT(fatal, *this));
+  reportError(fatal, true);
 } // fatal
 
 template<class string_type, class T0, class T1>
-- 
2.43.0


From 986ccdba5ab541a1146872df72a11173e823025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 28/53] fix: other prefixes for the xml namespace are still
 accepted

---
 include/SAX/wrappers/saxexpat.hpp   | 6 +++---
 include/SAX/wrappers/saxlibxml2.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index f39d04f..12c936f 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -704,8 +704,8 @@ template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::declareNamespace(const string_type& prefix, const string_type& uri)
 {
   // xml may be declared, but only as itself, and there are no prefix mapping events for it
-  const bool xmlUri = (uri == nsc_.xml_uri);
-  if((prefix == nsc_.xml) && xmlUri)
+  // (other prefixes for the xml namespace are let through)
+  if((prefix == nsc_.xml) && (uri == nsc_.xml_uri))
     return;
 
   if(!nsSupport_.declarePrefix(prefix, uri)) 
@@ -713,7 +713,7 @@ void expat_wrapper<string_type, T0, T1>::declareNamespace(const string_type& pre
     reportError(std::string("Illegal Namespace prefix ") + SA::asStdString(prefix));
     return;
   } // if ...
-  if(xmlUri || (uri == nsc_.xmlns11_uri) || (SA::empty(uri) && !SA::empty(prefix)))
+  if((uri == nsc_.xmlns11_uri) || (SA::empty(uri) && !SA::empty(prefix)))
     reportError(std::string("Illegal Namespace declaration for prefix ") + SA::asStdString(prefix));
 
   if(contentHandler_)
diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 972457b..383d559 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -676,8 +676,8 @@ template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::declareNamespace(const string_type& prefix, const string_type& uri)
 {
   // xml may be declared, but only as itself, and there are no prefix mapping events for it
-  const bool xmlUri = (uri == nsc_.xml_uri);
-  if((prefix == nsc_.xml) && xmlUri)
+  // (other prefixes for the xml namespace are let through)
+  if((prefix == nsc_.xml) && (uri == nsc_.xml_uri))
     return;
 
   if(!nsSupport_.declarePrefix(prefix, uri))
@@ -685,7 +685,7 @@ void libxml2_wrapper<string_type, T0, T1>::declareNamespace(const string_type& p
     reportError(std::string("Illegal Namespace prefix ") + string_adaptor::asStdString(prefix));
     return;
   } // if ...
-  if(xmlUri || (uri == nsc_.xmlns11_uri) || (string_adaptor::empty(uri) && !string_adaptor::empty(prefix)))
+  if((uri == nsc_.xmlns11_uri) || (string_adaptor::empty(uri) && !string_adaptor::empty(prefix)))
     reportError(std::string("Illegal Namespace declaration for prefix ") + string_adaptor::asStdString(prefix));
 
   if(contentHandler_)
-- 
2.43.0


From ee700f009908d759e23b5b5e97d99acbc0e28070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:40 +0000
Subject: [PATCH 29/53] fix: warnings raised while building a variable no
 longer dereference null

---
 include/XSLT/impl/xslt_execution_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..d875439 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -60,6 +60,7 @@ public:
     to_msg_(false)
   {
 		xpathContext_.setVariableResolver(stack_);
+    sink_.set_warning_sink(message_sink_.asOutput());
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
-- 
2.43.0


From 05dbe43b7ab36fced508ed84345b40b187555ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:55 +0000
Subject: [PATCH 30/53] fix: instantiating an empty string creates no text node

---
 include/XSLT/impl/xslt_output.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..3dd2107 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -170,6 +170,9 @@ public:
 
   void characters(const string_type& ch)
   {
+    if(string_adaptor::empty(ch))
+      return; // no text node
+
     if(buffering_)
     {
       if(buffering_ == 1)
-- 
2.43.0


From f17519aaf9383c5e23d0f7c4a3c23c4499a294ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 31/53] fix: a result tree fragment is one root node, so its
 string value covers all of its content

---
 include/XSLT/impl/xslt_item.hpp          | 2 ++
 include/XSLT/impl/xslt_sink.hpp          | 1 +
 include/XSLT/impl/xslt_variable_impl.hpp | 9 ++++-----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/xslt_item.hpp b/include/XSLT/impl/xslt_item.hpp
index 7f5762d..a2653d5 100644
--- a/include/XSLT/impl/xslt_item.hpp
+++ b/include/XSLT/impl/xslt_item.hpp
@@ -35,6 +35,8 @@ protected:
       (*ci)->execute(node, context);
   } // execute
 
+  bool has_children() const { return !children_.empty(); }
+
 public:
   void add_item(Item<string_type, string_adaptor>* child) 
   {
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..fd9e6c2 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -364,6 +364,7 @@ public:
 
   virtual Output<string_type, string_adaptor>& asOutput() { return *this; }
   DOM::Node<string_type, string_adaptor> node() const { return documentFrag_; }
+  DOM::Node<string_type, string_adaptor> fragment() { current(); return documentFrag_; }
 
 protected:
   typedef typename Output<string_type, string_adaptor>::Settings Settings;
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 529dde5..e0e2748 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -43,14 +43,13 @@ public:
     if(select_)
       return select_->evaluate(node, context.xpathContext());
 
-    this->execute_children(node, context);
-
-    if(sink.node() == 0)
+    if(!this->has_children())
       return StringValue::createValue(string_adaptor::empty_string());
 
+    this->execute_children(node, context);
+
     NodeSet nodeset;
-    for(DOMNode n = sink.node().getFirstChild(); n != 0; n = n.getNextSibling())
-      nodeset.push_back(n);
+    nodeset.push_back(sink.fragment());
 
     return NodeSetValue::createValue(nodeset);
   } // value
-- 
2.43.0


From aab6be1cb0f79eb4b373788c8e333667ce2e4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:37 +0000
Subject: [PATCH 32/53] fix: apply-templates on an attribute does not process
 its DOM text children

---
 include/XSLT/impl/xslt_apply_templates.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/xslt_apply_templates.hpp b/include/XSLT/impl/xslt_apply_templates.hpp
index 1a423ef..7601310 100644
--- a/include/XSLT/impl/xslt_apply_templates.hpp
+++ b/include/XSLT/impl/xslt_apply_templates.hpp
@@ -28,6 +28,9 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, 
                        ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if((select_ == 0) && (node.getNodeType() == DOM::Node_base::ATTRIBUTE_NODE))
+      return; // attributes have no children in the XPath data model
+
     ParamPasser<string_type, string_adaptor> passer(*this, node, context);
 
     if(!SortableT::has_sort() && select_ == 0)
-- 
2.43.0


From ea4ce922060c692ddd4cc6df2fdaf3dfc7a7e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 33/53] fix: attributes copied while creating an attribute,
 comment or PI are ignored

---
 include/XSLT/impl/xslt_output.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 3dd2107..69c7206 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -159,6 +159,9 @@ public:
 		                 const string_type& qName,
 		                 const string_type& value) 
   {
+    if(is_buffering())
+      return;
+
     if(!pending_element_)
     {  
       warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute, no open element"));
-- 
2.43.0


From fbf7f8ae261267b607be57c61544165030ff9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:16 +0000
Subject: [PATCH 34/53] fix: templates called while building an xsl:with-param
 do not receive its sibling parameters

---
 include/XSLT/impl/xslt_execution_context.hpp | 1 +
 include/XSLT/impl/xslt_variable_stack.hpp    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index d875439..84bac80 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -60,6 +60,7 @@ public:
     to_msg_(false)
   {
 		xpathContext_.setVariableResolver(stack_);
+    stack_.forgetPassedParams(); // those already passed are for the template about to be called
     sink_.set_warning_sink(message_sink_.asOutput());
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..6f0417d 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -98,6 +98,11 @@ public:
     return name;
   } // passParam
 
+  void forgetPassedParams()
+  {
+    params_.back().clear();
+  } // forgetPassedParams
+
   void unpassParam(const string_type& name)
   {
     params_.back().erase(name);
-- 
2.43.0


From b4beae6b543140745bc9e7a773fedc1d70269da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:38 +0000
Subject: [PATCH 35/53] fix: variables declared inside comment, copy, message,
 processing-instruction and variable do not leak

---
 include/XSLT/impl/xslt_comment.hpp                | 1 +
 include/XSLT/impl/xslt_copy.hpp                   | 1 +
 include/XSLT/impl/xslt_message.hpp                | 1 +
 include/XSLT/impl/xslt_processing_instruction.hpp | 1 +
 include/XSLT/impl/xslt_variable_impl.hpp          | 1 +
 5 files changed, 5 insertions(+)

diff --git a/include/XSLT/impl/xslt_comment.hpp b/include/XSLT/impl/xslt_comment.hpp
index 014d6a1..91aac9d 100644
--- a/include/XSLT/impl/xslt_comment.hpp
+++ b/include/XSLT/impl/xslt_comment.hpp
@@ -22,6 +22,7 @@ public:
   {
     context.sink().start_comment();
 
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     context.sink().end_comment();
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1e839fd..7898959 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -88,6 +88,7 @@ public:
 protected:
   virtual void process_content(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
   } // process_content
 
diff --git a/include/XSLT/impl/xslt_message.hpp b/include/XSLT/impl/xslt_message.hpp
index 15379ef..a4f05de 100644
--- a/include/XSLT/impl/xslt_message.hpp
+++ b/include/XSLT/impl/xslt_message.hpp
@@ -25,6 +25,7 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     RedirectionFrame toMessageSink(context);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     if(terminate_)
diff --git a/include/XSLT/impl/xslt_processing_instruction.hpp b/include/XSLT/impl/xslt_processing_instruction.hpp
index 0e61490..41948af 100644
--- a/include/XSLT/impl/xslt_processing_instruction.hpp
+++ b/include/XSLT/impl/xslt_processing_instruction.hpp
@@ -30,6 +30,7 @@ public:
     validate_name(name);
 
     context.sink().start_processing_instruction(name);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
     context.sink().end_processing_instruction();
   } // execute
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index e0e2748..232db83 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -46,6 +46,7 @@ public:
     if(!this->has_children())
       return StringValue::createValue(string_adaptor::empty_string());
 
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     NodeSet nodeset;
-- 
2.43.0


From 7114a210319e8f89205170930fd3078aa83c0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:26 +0000
Subject: [PATCH 36/53] fix: the current node and position are restored after
 for-each and apply-templates

---
 include/XSLT/impl/xslt_execution_context.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 84bac80..ff12cab 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -104,6 +104,12 @@ public:
     return old;
   } // setLast
 
+  void saveFocus(DOM::Node<string_type, string_adaptor>& current, int& position) const
+  {
+    current = xpathContext_.currentNode();
+    position = xpathContext_.position();
+  } // saveFocus
+
 private:
   void pushStackFrame() { stack_.pushScope(); }
   void chainStackFrame() { stack_.chainScope(); }
@@ -256,22 +262,27 @@ class LastFrame
 public:
   LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : context_(context) 
   { 
+    context_.saveFocus(oldCurrent_, oldPosition_);
     oldLast_ = context_.setLast(last);
   } // LastFrame
 
   LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : context_(context) 
   { 
+    context_.saveFocus(oldCurrent_, oldPosition_);
     oldLast_ = context_.setLast(static_cast<int>(last));
   } // LastFrame
 
   ~LastFrame()
   {
     context_.setLast(oldLast_);
+    context_.setPosition(oldCurrent_, oldPosition_);
   } // ~LastFrame
 
 private:
   ExecutionContext<string_type, string_adaptor>& context_;
   int oldLast_;
+  int oldPosition_;
+  DOM::Node<string_type, string_adaptor> oldCurrent_;
 
   LastFrame(const LastFrame&);
   LastFrame& operator=(const LastFrame&);
-- 
2.43.0


From d0e2de6724620140b2b870ed515bcbde674ccc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:30 +0000
Subject: [PATCH 37/53] fix: sort keys are evaluated once per node, in document
 order, with the right position and last

---
 include/XSLT/impl/xslt_sort.hpp | 98 ++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 33 deletions(-)

diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index b02aa77..20cf7a3 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -8,6 +8,17 @@ namespace Arabica
 namespace XSLT
 {
 
+// a node to be sorted, with the values of each of its sort keys
+template<class string_type, class string_adaptor>
+struct SortItem
+{
+  SortItem(const DOM::Node<string_type, string_adaptor>& n) : node(n) { }
+
+  DOM::Node<string_type, string_adaptor> node;
+  std::vector<string_type> strings;
+  std::vector<double> numbers;
+}; // struct SortItem
+
 template<class string_type, class string_adaptor>
 class Sort
 {
@@ -15,6 +26,7 @@ class Sort
 public:
   typedef Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> XPathExpressionPtr;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
+  typedef SortItem<string_type, string_adaptor> SortItemT;
 
   Sort(const XPathExpressionPtr& select,
        const XPathExpressionPtr& lang, //="language-code"
@@ -26,7 +38,9 @@ public:
     datatype_(datatype),
     order_(order),
     caseorder_(caseorder),
-    sub_sort_(0)
+    sub_sort_(0),
+    level_(0),
+    is_number_(false)
   {
   } // Sort
 
@@ -49,7 +63,8 @@ public:
     validate(SC::order, allowed_orders, order);
     validate(SC::case_order, allowed_case_orders, caseorder);
 
-    if(datatype == SC::number)
+    is_number_ = (datatype == SC::number);
+    if(is_number_)
       if(order == SC::ascending)
         sort_fn_ = &Sort::numberAscending;
       else
@@ -64,7 +79,16 @@ public:
       sub_sort_->set_context(node, context);
   } // set_context
 
-  bool operator()(const DOMNode& n1, const DOMNode& n2) const
+  // evaluate the keys of the current node
+  void evaluate_keys(SortItemT& item) const
+  {
+    item.strings.push_back(is_number_ ? string_adaptor::empty_string() : select_->evaluateAsString(item.node, context_->xpathContext()));
+    item.numbers.push_back(is_number_ ? select_->evaluateAsNumber(item.node, context_->xpathContext()) : 0.0);
+    if(sub_sort_)
+      sub_sort_->evaluate_keys(item);
+  } // evaluate_keys
+
+  bool operator()(const SortItemT& n1, const SortItemT& n2) const
   {
     return (this->*sort_fn_)(n1, n2);
   } // operator()
@@ -72,7 +96,10 @@ public:
   void add_sub_sort(Sort* sort)
   {
     if(!sub_sort_)
+    {
       sub_sort_ = sort;
+      sort->level_ = level_ + 1;
+    }
     else 
       sub_sort_->add_sub_sort(sort);
   } // add_sub_sort
@@ -89,12 +116,12 @@ private:
 
   } // validate
 
-  typedef bool(Sort::*sortFn)(const DOMNode& n1, const DOMNode& n2) const;
-  bool numberAscending(const DOMNode& n1, const DOMNode& n2) const
+  typedef bool(Sort::*sortFn)(const SortItemT& n1, const SortItemT& n2) const;
+  bool numberAscending(const SortItemT& n1, const SortItemT& n2) const
   {
     return numberSort(n1, n2, nanAscending, std::less<double>());
   } // numberAscending
-  bool numberDescending(const DOMNode& n1, const DOMNode& n2) const
+  bool numberDescending(const SortItemT& n1, const SortItemT& n2) const
   {
     return numberSort(n1, n2, nanDescending, std::greater<double>());
   } // numberDescending
@@ -107,13 +134,13 @@ private:
     return !nan1;
   } // nanDescending
   template<class NanCompare, class NumberCompare>
-  bool numberSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
+  bool numberSort(const SortItemT& n1, 
+                  const SortItemT& n2, 
                   NanCompare nanCompare, 
                   NumberCompare compare) const
   {
-    double v1 = grabAsNumber(n1);
-    double v2 = grabAsNumber(n2);
+    double v1 = n1.numbers[level_];
+    double v2 = n2.numbers[level_];
 
     bool nan1 = Arabica::XPath::isNaN(v1);
     bool nan2 = Arabica::XPath::isNaN(v2);
@@ -126,21 +153,21 @@ private:
 
     return compare(v1, v2);
   } // numberSort
-  bool stringAscending(const DOMNode& n1, const DOMNode& n2) const
+  bool stringAscending(const SortItemT& n1, const SortItemT& n2) const
   {
     return stringSort(n1, n2, std::less<string_type>());
   } // stringAscending
-  bool stringDescending(const DOMNode& n1, const DOMNode& n2) const
+  bool stringDescending(const SortItemT& n1, const SortItemT& n2) const
   {
     return stringSort(n1, n2, std::greater<string_type>());
   } // stringAscending
   template<class StringCompare>
-  bool stringSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
+  bool stringSort(const SortItemT& n1, 
+                  const SortItemT& n2, 
                   StringCompare compare) const
   {
-    string_type v1 = grabAsString(n1);
-    string_type v2 = grabAsString(n2);
+    const string_type& v1 = n1.strings[level_];
+    const string_type& v2 = n2.strings[level_];
 
     if((v1 == v2) && (sub_sort_))
       return (*sub_sort_)(n1, n2);
@@ -148,23 +175,14 @@ private:
     return compare(v1, v2);
   } // stringSort
 
-  string_type grabAsString(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsString(n, context_->xpathContext());
-  } // grabAsString
-  double grabAsNumber(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsNumber(n, context_->xpathContext());
-  } // grabAsString
-
   XPathExpressionPtr select_;
   XPathExpressionPtr lang_;
   XPathExpressionPtr datatype_;
   XPathExpressionPtr order_;
   XPathExpressionPtr caseorder_;
   Sort* sub_sort_;
+  size_t level_;
+  bool is_number_;
   ExecutionContext<string_type, string_adaptor>* context_;
   sortFn sort_fn_;
 
@@ -177,6 +195,7 @@ class Sortable
 {
 public:
   typedef Sort<string_type, string_adaptor> SortT;
+  typedef SortItem<string_type, string_adaptor> SortItemT;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
 
@@ -195,15 +214,28 @@ protected:
             NodeSet& nodes, 
             ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!nodes.forward())
+      nodes.to_document_order();
+
     if(!sort_)
-    {
-      if(!nodes.forward())
-        nodes.to_document_order();
       return;
-    }
 
     sort_->set_context(node, context);
-    std::stable_sort(nodes.begin(), nodes.end(), SortP(*sort_));
+
+    std::vector<SortItemT> items;
+    {
+      LastFrame<string_type, string_adaptor> last(context, nodes.size());
+      for(size_t n = 0, e = nodes.size(); n != e; ++n)
+      {
+        context.setPosition(nodes[n], n+1);
+        items.push_back(SortItemT(nodes[n]));
+        sort_->evaluate_keys(items.back());
+      } // for ...
+    }
+    std::stable_sort(items.begin(), items.end(), SortP(*sort_));
+
+    for(size_t n = 0, e = nodes.size(); n != e; ++n)
+      *(nodes.begin() + n) = items[n].node;
   } // sort
 
   bool has_sort() const { return sort_ != 0; }
@@ -223,7 +255,7 @@ private:
   struct SortP
   {
     SortP(SortT& sort) : sort_(sort) { }
-    bool operator()(const DOMNode& n1, const DOMNode& n2)
+    bool operator()(const SortItemT& n1, const SortItemT& n2)
     {
       return sort_(n1, n2);
     } // operator()
-- 
2.43.0


From 4a2e287f5ace4b16bc9f9578b8c3f35e9039433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 38/53] fix: apply-imports after a nested apply-templates uses
 the mode and precedence of its own rule

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 86f1763..bfea413 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -238,6 +238,7 @@ private:
                         const Precedence& generation) const
   {
     StackFrame<string_type, string_adaptor> frame(context);
+    CurrentRuleFrame ruleFrame(current_mode_, current_generation_);
 
     std::vector<Precedence> lower_precedences;
     for(TemplateStackIterator ts = templates_.begin(), tse = templates_.end(); ts != tse; ++ts)
@@ -309,6 +310,34 @@ private:
   } // set_parameter
 
 private:
+  // the mode and import precedence of the current template rule, restored when a rule has been processed
+  class CurrentRuleFrame
+  {
+  public:
+    CurrentRuleFrame(string_type& mode, Precedence& generation) :
+      mode_(mode),
+      generation_(generation),
+      oldMode_(mode),
+      oldGeneration_(generation)
+    {
+    } // CurrentRuleFrame
+
+    ~CurrentRuleFrame()
+    {
+      mode_ = oldMode_;
+      generation_ = oldGeneration_;
+    } // ~CurrentRuleFrame
+
+  private:
+    string_type& mode_;
+    Precedence& generation_;
+    string_type oldMode_;
+    Precedence oldGeneration_;
+
+    CurrentRuleFrame(const CurrentRuleFrame&);
+    CurrentRuleFrame& operator=(const CurrentRuleFrame&);
+  }; // class CurrentRuleFrame
+
   class MatchTemplate
   {
   public:
-- 
2.43.0


From 259970e5c2bc627637eccce7e9bfb29eea5390a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:14 +0000
Subject: [PATCH 39/53] fix: paths into a result tree fragment are an error,
 and an empty string still gives a start and an end tag

---
 include/XPath/impl/xpath_object.hpp      |  2 ++
 include/XPath/impl/xpath_step.hpp        |  7 +++++--
 include/XSLT/impl/xslt_output.hpp        | 15 ++++++++++++---
 include/XSLT/impl/xslt_sink.hpp          |  3 +++
 include/XSLT/impl/xslt_variable_impl.hpp | 14 +++++++++++++-
 5 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index d044538..108ed8f 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -339,6 +339,7 @@ public:
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const = 0;
 
   virtual ValueType type() const = 0;
+  virtual bool isResultTree() const { return false; }
 
 private:
   XPathValue_impl(const XPathValue_impl&);
@@ -367,6 +368,7 @@ public:
   const NodeSet<string_type, string_adaptor>& asNodeSet() const { return ptr_->asNodeSet(); }
 
   ValueType type() const { return ptr_->type(); }
+  bool isResultTree() const { return ptr_->isResultTree(); }
 
   operator bool() const { return ptr_.get() != 0; }
   bool operator==(int dummy) const { return (dummy == 0) && (ptr_.get() == 0); } 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index ea22dd3..349ae0c 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -199,10 +199,13 @@ public:
 
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, const ExecutionContext<string_type, string_adaptor>& executionContext) const
   {
+    XPathValue<string_type, string_adaptor> value = expr_->evaluate(context, executionContext);
+    if(value.isResultTree())
+      throw RuntimeException("The /, // and [] operators can not be used on a result tree fragment");
     if(!baseT::has_predicates())
-     return expr_->evaluate(context, executionContext);
+      return value;
 
-    NodeSet<string_type, string_adaptor> ns = expr_->evaluate(context, executionContext).asNodeSet();
+    NodeSet<string_type, string_adaptor> ns = value.asNodeSet();
     ns.to_document_order();
     return XPathValue<string_type, string_adaptor>(new NodeSetValue<string_type, string_adaptor>(baseT::applyPredicates(ns, executionContext)));
   } // evaluate
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 69c7206..62d2100 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -25,6 +25,7 @@ protected:
     buffering_(0),
     pending_element_(false),
     pending_text_(false),
+    empty_text_(false),
     pending_attribute_(-1),
     text_mode_(false),
     warning_sink_(0)
@@ -173,9 +174,6 @@ public:
 
   void characters(const string_type& ch)
   {
-    if(string_adaptor::empty(ch))
-      return; // no text node
-
     if(buffering_)
     {
       if(buffering_ == 1)
@@ -183,6 +181,12 @@ public:
       return;
     } // if ...
 
+    if(string_adaptor::empty(ch))
+    {
+      empty_text_ = empty_text_ || pending_element_;
+      return; // no text node
+    } // if ...
+
     flush_element();
 
     if(pending_attribute_ != -1)
@@ -349,6 +353,10 @@ private:
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
     pending_element_ = false;
+
+    if(empty_text_)
+      do_characters(string_adaptor::empty_string()); // start and end tag rather than an empty element tag
+    empty_text_ = false;
   } // flush_element
 
   bool isCDATA()
@@ -384,6 +392,7 @@ private:
   int buffering_;
   bool pending_element_;
   bool pending_text_;
+  bool empty_text_;
   int pending_attribute_;
   bool text_mode_;
   Output* warning_sink_;
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index fd9e6c2..6da8d48 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -383,6 +383,9 @@ protected:
 
   void do_characters(const string_type& ch)
   {
+    if(string_adaptor::empty(ch))
+      return;
+
     DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
     if(lc == 0 || lc.getNodeType() != DOM::Node_base::TEXT_NODE)
       current().appendChild(document().createTextNode(ch));
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 232db83..a4f1542 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -11,6 +11,18 @@ namespace Arabica
 namespace XSLT
 {
 
+template<class string_type, class string_adaptor>
+class ResultTreeValue : public Arabica::XPath::NodeSetValue<string_type, string_adaptor>
+{
+public:
+  ResultTreeValue(const Arabica::XPath::NodeSet<string_type, string_adaptor>& set) : 
+      Arabica::XPath::NodeSetValue<string_type, string_adaptor>(set) 
+  { 
+  } // ResultTreeValue
+
+  virtual bool isResultTree() const { return true; }
+}; // ResultTreeValue
+
 template<class string_type, class string_adaptor>
 class Variable_impl : public ItemContainer<string_type, string_adaptor>, public Variable_declaration<string_type, string_adaptor>
 {
@@ -52,7 +64,7 @@ public:
     NodeSet nodeset;
     nodeset.push_back(sink.fragment());
 
-    return NodeSetValue::createValue(nodeset);
+    return XPathValue(new ResultTreeValue<string_type, string_adaptor>(nodeset));
   } // value
 
   virtual const Precedence& precedence() const { return precedence_; }
-- 
2.43.0


From b6179fb542a3397706214610fb7ce9929824fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:16 +0000
Subject: [PATCH 40/53] fix: an attribute copied onto an element replaces one
 of the same name

---
 include/XSLT/impl/xslt_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 62d2100..1c7b9fd 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -169,7 +169,7 @@ public:
       return;
     } // if ...
 
-    atts_.addAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
+    atts_.addOrReplaceAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
   } // add_attribute
 
   void characters(const string_type& ch)
-- 
2.43.0


From b0066fe824fe48438c5cac4f833464b4aea890c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 41/53] fix: result namespace declarations follow element
 scopes, and aliases apply wherever they are declared

---
 .../handler/xslt_inline_element_handler.hpp   | 40 ++------
 .../XSLT/impl/xslt_compilation_context.hpp    | 24 +----
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  4 +
 include/XSLT/impl/xslt_inline_element.hpp     | 85 ++++++++++++++--
 include/XSLT/impl/xslt_namespace_stack.hpp    | 96 +++++++++++++------
 include/XSLT/impl/xslt_output.hpp             | 46 ++++-----
 6 files changed, 183 insertions(+), 112 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 960795e..a5e6c51 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -31,42 +31,22 @@ protected:
     std::vector<InlineAttribute<string_type, string_adaptor> > inlineAtts;
     for(int i = 0; i != atts.getLength(); ++i)
     {      
-      if(string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0)
+      if((string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0) || (atts.getQName(i) == SC::xmlns))
         continue;
       if(atts.getURI(i) == StylesheetConstant<string_type, string_adaptor>::NamespaceURI)
         continue;
-      if(!baseT::context().isRemapped(atts.getURI(i)))
-        inlineAtts.push_back(InlineAttribute<string_type, string_adaptor>(atts.getQName(i), 
-                                             atts.getURI(i),
-                                             baseT::context().xpath_attribute_value_template(atts.getValue(i))));
-      else
-      {
-        std::pair<string_type, string_type> remap = baseT::context().remappedNamespace(atts.getURI(i));
-        if(string_adaptor::empty(remap.first) && !string_adaptor::empty(remap.second))
-           remap.first = baseT::context().autoNamespacePrefix();
-        string_type name = makeName(remap.first, atts.getLocalName(i));
-        inlineAtts.push_back(InlineAttribute<string_type, string_adaptor>(name, 
-                                             remap.second,
-                                             baseT::context().xpath_attribute_value_template(atts.getValue(i))));
-      } // if ... 
+      inlineAtts.push_back(InlineAttribute<string_type, string_adaptor>(atts.getQName(i), 
+                                           atts.getLocalName(i),
+                                           atts.getURI(i),
+                                           baseT::context().xpath_attribute_value_template(atts.getValue(i))));
     } // for ...
 
-    if(!baseT::context().isRemapped(namespaceURI))
-      return new InlineElement<string_type, string_adaptor>(qName, namespaceURI, inlineAtts);
-
-    const std::pair<string_type, string_type>& remap = baseT::context().remappedNamespace(namespaceURI);
-    string_type name = makeName(remap.first, localName);
-    return new InlineElement<string_type, string_adaptor>(name, remap.second, inlineAtts);
+    return new InlineElement<string_type, string_adaptor>(qName, 
+                                                          localName, 
+                                                          namespaceURI, 
+                                                          inlineAtts, 
+                                                          baseT::context().stylesheet().namespace_aliases());
   } // createContainer
-
-private:
-  string_type makeName(const string_type prefix, const string_type localName) const
-  {
-    string_type n = prefix;
-    string_adaptor::append(n, SC::COLON);
-    string_adaptor::append(n, localName);
-    return n;
-  } // makeName
 }; // class InlineElementHandler
 
 
diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 51ff879..a62fe43 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -42,7 +42,6 @@ public:
                      CompiledStylesheetT& stylesheet) :
     parser_(parser),
     stylesheet_(stylesheet),
-    autoNs_(1),
     current_allowed_(false),
     variables_allowed_(true),    
     precedence_(Precedence::InitialPrecedence())
@@ -154,26 +153,9 @@ public:
 			 const string_type& result_prefix,
 			 const string_type& result_namespace)
   { 
-    namespaceRemap_[stylesheet_namespace] = std::make_pair(result_prefix, result_namespace);
+    stylesheet_.namespace_aliases().add(stylesheet_namespace, result_prefix, result_namespace, precedence_);
   } // addNamespaceAlias
 
-  bool isRemapped(const string_type& namespaceURI) const
-  {
-    return namespaceRemap_.find(namespaceURI) != namespaceRemap_.end();
-  } // isRemapped
-
-  const std::pair<string_type, string_type>& remappedNamespace(const string_type& namespaceURI) 
-  {
-    return namespaceRemap_[namespaceURI];
-  } // remappedNamespace
-  
-  string_type autoNamespacePrefix() const
-  {
-    std::basic_ostringstream<typename string_adaptor::value_type> ss;
-    ss << SC::auto_ns << autoNs_++;
-    return string_adaptor::construct(ss.str());
-  } // autoNamespacePrefix
-
   void set_precedence(const Precedence& prec)
   {
     precedence_ = prec;
@@ -265,18 +247,14 @@ private:
     return parser_.namespaceURI(prefix);
   } // namespaceURI
 
-  typedef std::pair<string_type, string_type> Namespace;
-
   StylesheetParser<string_type, string_adaptor>& parser_;
   CompiledStylesheetT& stylesheet_;
-  mutable int autoNs_;
   mutable bool current_allowed_;
   mutable bool variables_allowed_;
   Precedence precedence_;
   Arabica::XPath::XPath<string_type, string_adaptor> xpath_;
   std::stack<SAX::DefaultHandler<string_type, string_adaptor>*> handlerStack_;
   std::stack<ItemContainer<string_type, string_adaptor>*> parentStack_;
-  std::map<string_type, Namespace> namespaceRemap_;
 
   CompilationContext(const CompilationContext&);
 
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index bfea413..7ba1ca1 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -9,6 +9,7 @@
 #include "xslt_template.hpp"
 #include "xslt_top_level_param.hpp"
 #include "xslt_key.hpp"
+#include "xslt_inline_element.hpp"
 #include "xslt_stylesheet.hpp"
 
 namespace Arabica
@@ -161,6 +162,8 @@ public:
     keys_.add(name, key);
   } // add_key
 
+  NamespaceAliases<string_type, string_adaptor>& namespace_aliases() { return namespace_aliases_; }
+
   void output_settings(const typename Output<string_type, string_adaptor>::Settings& settings, 
                        const typename Output<string_type, string_adaptor>::CDATAElements& cdata_elements)
   {
@@ -393,6 +396,7 @@ private:
 
   typename Output<string_type, string_adaptor>::Settings output_settings_;
   typename Output<string_type, string_adaptor>::CDATAElements output_cdata_elements_;
+  NamespaceAliases<string_type, string_adaptor> namespace_aliases_;
   SinkHolder<string_type, string_adaptor> output_;
   mutable std::basic_ostream<typename string_adaptor::value_type>* error_output_;
 }; // class CompiledStylesheet
diff --git a/include/XSLT/impl/xslt_inline_element.hpp b/include/XSLT/impl/xslt_inline_element.hpp
index 4ab78b3..e15a559 100644
--- a/include/XSLT/impl/xslt_inline_element.hpp
+++ b/include/XSLT/impl/xslt_inline_element.hpp
@@ -1,7 +1,11 @@
 #ifndef ARABICA_XSLT_INLINE_ELEMENT_HPP
 #define ARABICA_XSLT_INLINE_ELEMENT_HPP
 
+#include <map>
+
 #include "xslt_item.hpp"
+#include "xslt_precedence.hpp"
+#include "handler/xslt_constants.hpp"
 #include <SAX/helpers/AttributesImpl.hpp>
 
 namespace Arabica
@@ -9,14 +13,61 @@ namespace Arabica
 namespace XSLT
 {
 
+template<class string_type, class string_adaptor>
+class NamespaceAliases
+{
+  struct Alias
+  {
+    string_type prefix_;
+    string_type namespace_;
+    Precedence precedence_;
+  }; // struct Alias
+  typedef std::map<string_type, Alias> AliasMap;
+
+public:
+  void add(const string_type& stylesheet_namespace,
+           const string_type& result_prefix,
+           const string_type& result_namespace,
+           const Precedence& precedence)
+  {
+    typename AliasMap::const_iterator existing = aliases_.find(stylesheet_namespace);
+    if((existing != aliases_.end()) && (existing->second.precedence_ > precedence))
+      return;
+
+    Alias& a = aliases_[stylesheet_namespace];
+    a.prefix_ = result_prefix;
+    a.namespace_ = result_namespace;
+    a.precedence_ = precedence;
+  } // add
+
+  // an alias can be declared after the templates that use it, so names are resolved when they are output
+  void resolve(string_type& name, const string_type& localName, string_type& name_space) const
+  {
+    typename AliasMap::const_iterator a = aliases_.find(name_space);
+    if(a == aliases_.end())
+      return;
+
+    name = a->second.prefix_;
+    if(!string_adaptor::empty(name))
+      string_adaptor::append(name, StylesheetConstant<string_type, string_adaptor>::COLON);
+    string_adaptor::append(name, localName);
+    name_space = a->second.namespace_;
+  } // resolve
+
+private:
+  AliasMap aliases_;
+}; // class NamespaceAliases
+
 template<class string_type, class string_adaptor>
 class InlineAttribute
 {
 public:
   InlineAttribute(const string_type& name,
+                  const string_type& localName,
                   const string_type& name_space,
                   Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> value) :
     name_(name),
+    localName_(localName),
     namespace_(name_space),
     value_(value)
   {
@@ -24,6 +75,7 @@ public:
 
   InlineAttribute(const InlineAttribute& rhs) :
     name_(rhs.name_),
+    localName_(rhs.localName_),
     namespace_(rhs.namespace_),
     value_(rhs.value_)
   {
@@ -32,20 +84,29 @@ public:
   InlineAttribute& operator==(const InlineAttribute& rhs)
   {
     name_ = rhs.name_;
+    localName_ = rhs.localName_;
     namespace_ = rhs.namespace_;
     value_ = rhs.value_;
     return *this;
   } // operator==
 
-  void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
+  void execute(const DOM::Node<string_type, string_adaptor>& node, 
+               ExecutionContext<string_type, string_adaptor>& context,
+               const NamespaceAliases<string_type, string_adaptor>& aliases) const
   {
-    context.sink().start_attribute(name_, namespace_);
+    string_type name = name_;
+    string_type name_space = namespace_;
+    if(!string_adaptor::empty(name_space))
+      aliases.resolve(name, localName_, name_space);
+
+    context.sink().start_attribute(name, name_space);
     context.sink().characters(value_->evaluateAsString(node, context.xpathContext()));
     context.sink().end_attribute();
   } // execute
 
 private:
   string_type name_;
+  string_type localName_;
   string_type namespace_;
   Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> value_;
 }; // class InlineAttribute
@@ -58,11 +119,15 @@ public:
   typedef adaptorT string_adaptor;
 
   InlineElement(const string_type& name,
+                const string_type& localName,
                 const string_type& name_space,
-                const std::vector<InlineAttribute<string_type, string_adaptor> >& attrs) :
+                const std::vector<InlineAttribute<string_type, string_adaptor> >& attrs,
+                const NamespaceAliases<string_type, string_adaptor>& aliases) :
     name_(name),
+    localName_(localName),
     namespace_(name_space),
-    attrs_(attrs)
+    attrs_(attrs),
+    aliases_(aliases)
   {
   } // InlineElement
 
@@ -70,21 +135,27 @@ public:
 
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
-    if(context.sink().start_element(name_, namespace_))
+    string_type name = name_;
+    string_type name_space = namespace_;
+    aliases_.resolve(name, localName_, name_space);
+
+    if(context.sink().start_element(name, name_space))
     {
       for(typename std::vector<InlineAttribute<string_type, string_adaptor> >::const_iterator a = attrs_.begin(), ae = attrs_.end(); a != ae; ++a)
-        a->execute(node, context);
+        a->execute(node, context, aliases_);
 
       ChainStackFrame<string_type, string_adaptor> frame(context);
       this->execute_children(node, context);
-      context.sink().end_element(name_, namespace_);
+      context.sink().end_element(name, name_space);
     }
   } // execute
 
 private:
   string_type name_;
+  string_type localName_;
   string_type namespace_;
   std::vector<InlineAttribute<string_type, string_adaptor> > attrs_;
+  const NamespaceAliases<string_type, string_adaptor>& aliases_;
 }; // class InlineElement
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..017fe98 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_NAMESPACE_STACK_HPP
 
 #include <map>
+#include <set>
 #include <vector>
  
 #include "handler/xslt_constants.hpp"
@@ -22,60 +23,97 @@ public:
     autoNs_(1)
   {
     prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
   } // NamespaceStack
 
   void pushScope()
   {
     prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    used_.clear();
   } // pushScope
 
   void popScope()
   {
     prefixStack_.pop_back();
-    uriStack_.pop_back();
+    used_.clear();
   } // popScope
 
-  void declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
+  // the prefix to use for an element or attribute on the innermost element, declared there if need be
+  string_type bindPrefix(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
   {
-    if(findPrefix(namespaceURI) != EMPTY_STRING)
-      return;
+    string_type prefix = choosePrefix(given_prefix, namespaceURI, attr);
+    used_.insert(prefix);
+    return prefix;
+  } // bindPrefix
 
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
-
-    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
-
-    prefixStack_.back()[prefix] = namespaceURI;
-    uriStack_.back()[namespaceURI] = prefix;
-  } // declareNamespace
+  // declare a namespace which was on a copied element, unless the prefix already has another meaning
+  void copyNamespace(const string_type& prefix, const string_type& namespaceURI)
+  {
+    if(!string_adaptor::empty(namespaceURI) && !reserved(prefix) && 
+       !isDeclared(prefix) && (used_.find(prefix) == used_.end()))
+      prefixStack_.back()[prefix] = namespaceURI;
+  } // copyNamespace
 
   const string_type& findURI(const string_type& prefix) const
   {
-    return searchStack(prefixStack_, prefix);
+    for(typename ScopeStack::const_reverse_iterator ss = prefixStack_.rbegin(), se = prefixStack_.rend(); ss != se; ss++)
+    {      
+      typename Scope::const_iterator i = ss->find(prefix);
+      if(i != ss->end())
+        return i->second;
+    }
+    return EMPTY_STRING;
   } // findURI
 
-  const string_type& findPrefix(const string_type& uri) const
-  {
-    return searchStack(uriStack_, uri);
-  } // findPrefix
-
   typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
   typename Scope::const_iterator end() { return prefixStack_.back().end(); }
 
 private:
   typedef std::vector<Scope> ScopeStack;
 
-  const string_type& searchStack(const ScopeStack& stack, const string_type& key) const
+  string_type choosePrefix(const string_type& given_prefix, const string_type& namespaceURI, bool attr)
   {
-    for(typename ScopeStack::const_reverse_iterator ss = stack.rbegin(), se = stack.rend(); ss != se; ss++)
-    {      
-      typename Scope::const_iterator i = ss->find(key);
-      if(i != ss->end())
-        return i->second;
-    }
-    return EMPTY_STRING;
-  } // searchStack
+    if(string_adaptor::empty(namespaceURI))
+    {
+      if(!attr && isDeclared(EMPTY_STRING))
+        prefixStack_.back()[EMPTY_STRING] = EMPTY_STRING;
+      return EMPTY_STRING;
+    } // if ...
+
+    if(namespaceURI == SC::xml_uri)
+      return SC::xml;
+
+    bool usable = !reserved(given_prefix) && !(attr && string_adaptor::empty(given_prefix));
+    if(usable && (findURI(given_prefix) == namespaceURI))
+      return given_prefix;
+
+    for(typename ScopeStack::const_reverse_iterator ss = prefixStack_.rbegin(), se = prefixStack_.rend(); ss != se; ss++)
+      for(typename Scope::const_iterator i = ss->begin(), ie = ss->end(); i != ie; ++i)
+        if((i->second == namespaceURI) && !string_adaptor::empty(i->first) && (findURI(i->first) == namespaceURI))
+          return i->first;
+
+    string_type prefix = given_prefix;
+    while(!usable)
+    {
+      prefix = autoNamespacePrefix();
+      usable = !isDeclared(prefix);
+    } // while ...
+    // another name on this element might be using the prefix for something else
+    while((prefixStack_.back().find(prefix) != prefixStack_.back().end()) || (used_.find(prefix) != used_.end()))
+      prefix = autoNamespacePrefix();
+
+    prefixStack_.back()[prefix] = namespaceURI;
+    return prefix;
+  } // choosePrefix
+
+  bool reserved(const string_type& prefix) const
+  {
+    return (prefix == SC::xml) || (prefix == SC::xmlns);
+  } // reserved
+
+  bool isDeclared(const string_type& prefix) const
+  {
+    return !string_adaptor::empty(findURI(prefix));
+  } // isDeclared
 
   string_type autoNamespacePrefix()
   {
@@ -85,7 +123,7 @@ private:
   } // autoNamespacePrefix
 
   ScopeStack prefixStack_;
-  ScopeStack uriStack_;
+  std::set<string_type> used_;
   string_type EMPTY_STRING;
   unsigned int autoNs_;
 }; // class NamespaceStack
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 1c7b9fd..df896be 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -66,17 +66,13 @@ public:
     flush_current();
 
     namespaceStack_.pushScope();
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.bindPrefix(prefix, namespaceURI);
 
     element_stack_.push(QName<string_type, string_adaptor>(mapped_prefix, localName, namespaceURI));
 
     atts_.clear();
     pending_element_ = true;
 
-    namespaceStack_.pushScope();
     return true;
   } // start_element
 
@@ -86,7 +82,7 @@ public:
     end_element(en.prefix, en.localName, en.namespaceURI);
   } // end_element
 
-  void end_element(const string_type& /* prefix */, const string_type& localName, const string_type& namespaceURI)
+  void end_element(const string_type& /* prefix */, const string_type& /* localName */, const string_type& /* namespaceURI */)
   {
     if(pop_if_buffering())
       return;
@@ -94,12 +90,9 @@ public:
     flush_current();
 
     if(!text_mode_)
-    {
-      string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
-      do_end_element((!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName, namespaceURI);
-      element_stack_.pop();
-    } // end_element
+      do_end_element(element_stack_.top().qname, element_stack_.top().namespaceURI);
 
+    element_stack_.pop();
     namespaceStack_.popScope();
   } // end_element
 
@@ -128,10 +121,7 @@ public:
       return;
     } // if ...
 
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.bindPrefix(prefix, namespaceURI, true);
     string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
 
     atts_.addOrReplaceAttribute(namespaceURI,
@@ -156,7 +146,7 @@ public:
   } // end_attribute
 
   void add_attribute(const string_type& uri,
-            		     const string_type& localName,
+            		     const string_type& /* localName */,
 		                 const string_type& qName,
 		                 const string_type& value) 
   {
@@ -169,7 +159,21 @@ public:
       return;
     } // if ...
 
-    atts_.addOrReplaceAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
+    QName<string_type, string_adaptor> qn = QName<string_type, string_adaptor>::create(qName, uri);
+    bool isDefault = string_adaptor::empty(qn.prefix) && (qn.localName == SC::xmlns);
+    if(isDefault || (qn.prefix == SC::xmlns))
+    {
+      namespaceStack_.copyNamespace(isDefault ? string_adaptor::empty_string() : qn.localName, value);
+      if(want_namespace_declarations())
+        return;
+    } // if ...
+    else 
+    {
+      string_type prefix = namespaceStack_.bindPrefix(qn.prefix, uri, true);
+      qn = QName<string_type, string_adaptor>(prefix, qn.localName, uri);
+    } // if ...
+
+    atts_.addOrReplaceAttribute(uri, qn.localName, qn.qname, string_adaptor::empty_string(), value); 
   } // add_attribute
 
   void characters(const string_type& ch)
@@ -344,11 +348,7 @@ private:
     if(text_mode_)
       return;
 
-    bool want_decs = want_namespace_declarations();
-    if(want_decs)
-      addNamespaceDeclarations();
-    namespaceStack_.popScope();
-    if(want_decs)
+    if(want_namespace_declarations())
       addNamespaceDeclarations();
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
@@ -361,7 +361,7 @@ private:
 
   bool isCDATA()
   {
-    if(element_stack_.empty())
+    if(text_mode_ || element_stack_.empty())
       return false;
     QName<string_type, string_adaptor> currentElement = element_stack_.top();
     return cdataElements_.find(currentElement) != cdataElements_.end();
-- 
2.43.0


From cd96106f9f90ea547f378e52daae6d30e849bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 42/53] fix: namespace='' on xsl:element and xsl:attribute
 means no namespace

---
 include/XPath/impl/xpath_parser.hpp                  | 2 ++
 include/XSLT/impl/handler/xslt_attribute_handler.hpp | 2 +-
 include/XSLT/impl/handler/xslt_element_handler.hpp   | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 1a56671..cab2fe9 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -88,6 +88,8 @@ public:
 
   XPathExpression<string_type, string_adaptor> compile_attribute_value_template(const string_type& xpath) const
   {
+    if(string_adaptor::empty(xpath))
+      return XPathExpression<string_type, string_adaptor>(new StringValue<string_type, string_adaptor>(xpath));
     return do_compile(xpath, &XPath::parse_xpath_attribute_value_template, attribute_value_factory());
   } // compile_attribute_value_template
 
diff --git a/include/XSLT/impl/handler/xslt_attribute_handler.hpp b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
index d6621fa..c1bd36d 100644
--- a/include/XSLT/impl/handler/xslt_attribute_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
@@ -35,7 +35,7 @@ protected:
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> name = 
                          baseT::context().xpath_attribute_value_template(attrs[SC::name]);
 
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Attribute<string_type, string_adaptor>(name, baseT::context().inScopeNamespaces());
 
     return new Attribute<string_type, string_adaptor>(name, baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]));
diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..535e244 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -39,7 +39,7 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
-- 
2.43.0


From 8f7670a31ba29d28647c4cca5caa701999731782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 43/53] fix: several xsl:output elements are merged

---
 include/XSLT/impl/handler/xslt_output_handler.hpp | 8 +++++++-
 include/XSLT/impl/xslt_compiled_stylesheet.hpp    | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_output_handler.hpp b/include/XSLT/impl/handler/xslt_output_handler.hpp
index b78d3ba..d831e77 100644
--- a/include/XSLT/impl/handler/xslt_output_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_output_handler.hpp
@@ -39,6 +39,11 @@ public:
       settings_ = rules.gather(qName, atts);
       cdataElements_ = extractCDATAElements(settings_[SC::cdata_section_elements]);
 
+      // only what was given, so that several xsl:output elements are merged
+      for(typename Settings::const_iterator s = settings_.begin(), se = settings_.end(); s != se; ++s)
+        if(atts.getIndex(s->first) != -1)
+          given_.insert(*s);
+
       return;
     } // if(settings_ == 0)
 
@@ -49,7 +54,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.stylesheet().output_settings(settings_, cdataElements_);
+    context_.stylesheet().output_settings(given_, cdataElements_);
     context_.pop();
   } // endElement
 
@@ -86,6 +91,7 @@ private:
 
   CompilationContext<string_type, string_adaptor>& context_;
   Settings settings_;
+  Settings given_;
   CDATAElements cdataElements_;
 }; // class OutputHandler
 
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 7ba1ca1..9a241c6 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -167,7 +167,8 @@ public:
   void output_settings(const typename Output<string_type, string_adaptor>::Settings& settings, 
                        const typename Output<string_type, string_adaptor>::CDATAElements& cdata_elements)
   {
-    output_settings_ = settings;
+    for(typename Output<string_type, string_adaptor>::Settings::const_iterator s = settings.begin(), se = settings.end(); s != se; ++s)
+      output_settings_[s->first] = s->second;
     output_cdata_elements_.insert(cdata_elements.begin(), cdata_elements.end());
   } // output_settingsp
 
-- 
2.43.0


From fe11227f5eab05115b8bd8f4950a5b5e94bcb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 44/53] fix: serialised CDATA sections, declaration and doctype
 are well formed

---
 include/XSLT/impl/xslt_sink.hpp | 104 ++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 44 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6da8d48..49fbd57 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -83,14 +83,17 @@ template<class string_type, class string_adaptor = Arabica::default_string_adapt
 class StreamSink : public Sink<string_type, string_adaptor>, private Output<string_type, string_adaptor>
 {
   typedef StylesheetConstant<string_type, string_adaptor> SC;
+  typedef Arabica::text::Unicode<typename string_adaptor::value_type> UnicodeT;
 
 public:
   StreamSink(std::basic_ostream<typename string_adaptor::value_type>& stream) :
     stream_(stream),
     disable_output_escaping_(false),
     in_cdata_(false),
+    cdata_brackets_(0),
     empty_(false),
     seen_root_(true),
+    seen_decl_(true),
     indent_(-1),
     out_again_(false)
   { 
@@ -100,8 +103,10 @@ public:
     stream_(rhs.stream_),
     disable_output_escaping_(rhs.disable_output_escaping_),
     in_cdata_(rhs.in_cdata_),
+    cdata_brackets_(rhs.cdata_brackets_),
     empty_(false),
     seen_root_(rhs.seen_root_),
+    seen_decl_(rhs.seen_decl_),
     indent_(rhs.indent_),
     out_again_(rhs.out_again_),
     settings_(rhs.settings_)
@@ -125,6 +130,7 @@ protected:
   void do_start_document(const Settings& settings)
   {
     seen_root_ = false;
+    seen_decl_ = false;
     settings_ = settings;
     if(setting(SC::indent) == SC::yes)
       indent_ = 0;
@@ -139,7 +145,7 @@ protected:
                         const SAX::Attributes<string_type, string_adaptor>& atts)
   {
     if(!seen_root_)
-      do_decl(qName);
+      do_doctype(qName);
 
     if(empty_)
       stream_ << ">";
@@ -159,9 +165,6 @@ protected:
   void do_end_element(const string_type& qName, 
 		                  const string_type& /* namespaceURI */)
   { 
-    if(!seen_root_)
-      do_decl(string_adaptor::empty_string());
-
     preoutdent(empty_);
 
     if(empty_)
@@ -178,29 +181,10 @@ protected:
   { 
     close_element_if_empty();
 
-    if(!disable_output_escaping_ && !in_cdata_)
+    if(in_cdata_) 
+      write_cdata(ch);
+    else if(!disable_output_escaping_)
       std::for_each(string_adaptor::begin(ch), string_adaptor::end(ch), Arabica::XML::text_escaper<typename string_adaptor::value_type>(stream_));
-    else if(in_cdata_) 
-    {
-      size_t breakAt = string_adaptor::find(ch, SC::CDATAEnd);
-      if(breakAt == string_adaptor::npos())
-      {
-        stream_ << ch;
-        return;
-      }
-      size_t start = 0;
-      do
-      {
-        breakAt += 2;
-        stream_ << string_adaptor::substr(ch, start, breakAt);
-        do_end_CDATA();
-        start = breakAt;
-        do_start_CDATA();
-        breakAt = string_adaptor::find(ch, SC::CDATAEnd, breakAt);
-      }
-      while(breakAt != string_adaptor::npos());
-      stream_ << string_adaptor::substr(ch, start);
-    }
     else
       stream_ << ch;
   } // characters
@@ -210,6 +194,7 @@ protected:
     close_element_if_empty();
 
     in_cdata_ = true;
+    cdata_brackets_ = 0;
     stream_ << SC::CDATAStart;
   } // do_start_CDATA
 
@@ -245,6 +230,30 @@ protected:
   bool want_namespace_declarations() const { return true; }
 
 private:
+  void write_cdata(const string_type& ch)
+  {
+    for(typename string_adaptor::const_iterator i = string_adaptor::begin(ch), e = string_adaptor::end(ch); i != e; ++i)
+    {
+      if(*i == UnicodeT::CARRIAGE_RETURN)
+      {
+        // written literally it would be read back as a line feed
+        do_end_CDATA();
+        Arabica::XML::text_escaper<typename string_adaptor::value_type> escape(stream_);
+        escape(*i);
+        do_start_CDATA();
+        continue;
+      } // if ...
+
+      if((*i == UnicodeT::GREATER_THAN_SIGN) && (cdata_brackets_ >= 2))
+      {
+        do_end_CDATA();
+        do_start_CDATA();
+      } // if ...
+      cdata_brackets_ = (*i == UnicodeT::RIGHT_SQUARE_BRACKET) ? cdata_brackets_ + 1 : 0;
+      stream_ << *i;
+    } // for ...
+  } // write_cdata
+
   void close_element_if_empty()
   {
     if(empty_)
@@ -253,8 +262,7 @@ private:
       empty_ = false;
     }
 
-    if(!seen_root_)
-      do_decl(string_adaptor::empty_string());
+    do_decl();
   } // close_element_if_empty
 
   void indent()
@@ -291,8 +299,12 @@ private:
     out_again_ = true;
   } // outdent
  
-  void do_decl(const string_type& qName)
+  void do_decl()
   {
+    if(seen_decl_)
+      return;
+
+    seen_decl_ = true;
     if((setting(SC::method) == SC::text) || (setting(SC::omit_xml_declaration) == SC::yes))
       return;
 
@@ -308,23 +320,25 @@ private:
         stream_ << " standalone=\"" << s << "\"";
     }
     stream_ << "?>\n";
+  } // do_decl 
 
-    if(!string_adaptor::empty(qName))
-    {
-      string_type pub = setting(SC::doctype_public);
-      string_type sys = setting(SC::doctype_system);
-
-      if(!string_adaptor::empty(sys))
-      {
-        stream_ << "<!DOCTYPE " << qName << "\n";
-        if(!string_adaptor::empty(pub))
-          stream_ << "  PUBLIC \"" << pub << "\" \"" << sys << "\">\n";
-	else
-          stream_ << "  SYSTEM \"" << sys << "\">\n";
-      } // if(!sys.empty())
-    }
+  void do_doctype(const string_type& qName)
+  {
+    do_decl();
     seen_root_ = true;
-  } // do_decl 
+
+    string_type pub = setting(SC::doctype_public);
+    string_type sys = setting(SC::doctype_system);
+    if(string_adaptor::empty(sys) || (setting(SC::method) == SC::text))
+      return;
+
+    const char* quote = (string_adaptor::find(sys, string_adaptor::construct_from_utf8("\"")) == string_adaptor::npos()) ? "\"" : "'";
+    stream_ << "<!DOCTYPE " << qName << "\n";
+    if(!string_adaptor::empty(pub))
+      stream_ << "  PUBLIC \"" << pub << "\" " << quote << sys << quote << ">\n";
+    else
+      stream_ << "  SYSTEM " << quote << sys << quote << ">\n";
+  } // do_doctype
 
   string_type setting(const string_type& name)
   {
@@ -337,8 +351,10 @@ private:
   std::basic_ostream<typename string_adaptor::value_type>& stream_;
   bool disable_output_escaping_;
   bool in_cdata_;
+  int cdata_brackets_;
   bool empty_;
   bool seen_root_;
+  bool seen_decl_;
   int indent_;
   bool out_again_;
   Settings settings_;
-- 
2.43.0


From 036236a4d23e318f22c47b99d8080625adf034c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 45/53] fix: xsl:output indent does not add text to a DOM
 result

---
 include/XSLT/impl/xslt_sink.hpp | 45 ++-------------------------------
 1 file changed, 2 insertions(+), 43 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 49fbd57..0c75d1c 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -369,8 +369,7 @@ class DOMSink : public Sink<string_type, string_adaptor>, private Output<string_
   typedef StylesheetConstant<string_type, string_adaptor> SC;
 public:
   DOMSink() :
-    indent_(-1),
-    out_again_(false)
+    current_()
   {
   } // DOMSink
 
@@ -385,12 +384,8 @@ public:
 protected:
   typedef typename Output<string_type, string_adaptor>::Settings Settings;
 
-  void do_start_document(const Settings& settings)
+  void do_start_document(const Settings& /* settings */)
   {
-    typename Settings::const_iterator i = settings.find(SC::indent);
-    if((i != settings.end()) &&
-       (i->second == SC::yes))
-      indent_ = 0;
   } // do_start_document
 
   void do_end_document()
@@ -439,7 +434,6 @@ protected:
                         const string_type& namespaceURI,
                         const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    indent();
     DOM::Element<string_type, string_adaptor> elem = document().createElementNS(namespaceURI, qName);
     current().appendChild(elem);
 
@@ -453,7 +447,6 @@ protected:
   void do_end_element(const string_type& /* qName */, 
                       const string_type& /* namespaceURI */)
   {
-    outdent();
     current_ = current_.getParentNode();
   } // do_end_element
 
@@ -478,43 +471,9 @@ private:
     return current_;
   } // current
 
-  void indent()
-  {
-    if(indent_ == -1)
-      return;
-
-    string_type sps;
-    if(indent_ != 0)
-    {
-      std::basic_string<typename string_adaptor::value_type> sps;
-      sps += SC::CARRIAGE_RETURN;
-      std::fill_n(std::back_inserter<std::basic_string<typename string_adaptor::value_type> >(sps), indent_, SC::SPACE);
-      do_characters(string_adaptor::construct(sps));
-    } // if ...
-
-    indent_ += 2;
-      
-    out_again_ = false;
-  } // indent
-
-  void outdent()
-  {
-    if(indent_ == -1)
-      return;
-
-    if(out_again_)
-      do_characters(SC::newline);
-
-    indent_ -= 2;
-    out_again_ = true;
-  } // outdent
-
   DOM::Document<string_type, string_adaptor> document_;
   DOM::DocumentFragment<string_type, string_adaptor> documentFrag_;
   DOM::Node<string_type, string_adaptor> current_;
-
-  int indent_;
-  bool out_again_;
 }; // DOMSink
 
 } // namespace XSLT
-- 
2.43.0


From 7b505a9b518621b989362c51078ef3de4e3af116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 46/53] fix: an empty attribute value template is allowed in
 stylesheets only, and DOM results keep the prefix of copied attributes

---
 include/XPath/impl/xpath_parser.hpp            | 2 --
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++++-
 include/XSLT/impl/xslt_output.hpp              | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index cab2fe9..1a56671 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -88,8 +88,6 @@ public:
 
   XPathExpression<string_type, string_adaptor> compile_attribute_value_template(const string_type& xpath) const
   {
-    if(string_adaptor::empty(xpath))
-      return XPathExpression<string_type, string_adaptor>(new StringValue<string_type, string_adaptor>(xpath));
     return do_compile(xpath, &XPath::parse_xpath_attribute_value_template, attribute_value_factory());
   } // compile_attribute_value_template
 
diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index a62fe43..2cf6532 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -84,7 +84,12 @@ public:
     return xpath_match(match);
   } // xpath_match_no_variables
 
-  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const { return xpath_.compile_attribute_value_template(expr); } 
+  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const 
+  {
+    if(string_adaptor::empty(expr))
+      return XPathExpressionPtrT(new XPath::StringValue<string_type, string_adaptor>(expr));
+    return xpath_.compile_attribute_value_template(expr); 
+  } // xpath_attribute_value_template
   CompiledStylesheetT& stylesheet() const { return stylesheet_; }
 
   QualifiedNameT processElementQName(const string_type& qName) const
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index df896be..4b20e2c 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -167,7 +167,7 @@ public:
       if(want_namespace_declarations())
         return;
     } // if ...
-    else 
+    else if((uri != SC::xml_uri) || want_namespace_declarations())
     {
       string_type prefix = namespaceStack_.bindPrefix(qn.prefix, uri, true);
       qn = QName<string_type, string_adaptor>(prefix, qn.localName, uri);
-- 
2.43.0


From 3a194ca9016ec635b6d340d262af6ce49aafed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 47/53] fix: key() indexes attributes and non-node-set uses,
 follows its context document, and forgets earlier runs

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  2 +
 include/XSLT/impl/xslt_functions.hpp          |  9 ++-
 include/XSLT/impl/xslt_key.hpp                | 73 +++++++++++++------
 3 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 9a241c6..e5ef143 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -100,6 +100,8 @@ public:
     if(initialNode == 0)
       throw std::runtime_error("Input document is empty");
 
+    keys_.clear(); // documents might have changed, or be new documents in the same place, since the last run
+
     NodeSet ns;
     ns.push_back(initialNode);
 
diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 376fe30..4981de7 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -112,20 +112,21 @@ protected:
 
     XPathValue a1 = baseT::arg(1, context, executionContext);
     if(a1.type() == Arabica::XPath::NODE_SET)
-      return nodeSetUnion(keyClarkName, a1.asNodeSet(), executionContext);
+      return nodeSetUnion(keyClarkName, a1.asNodeSet(), context, executionContext);
 
-    return keys_.lookup(keyClarkName, a1.asString(), executionContext);
+    return keys_.lookup(keyClarkName, a1.asString(), context, executionContext);
   } // doEvaluate
 
   NodeSet nodeSetUnion(const string_type& keyClarkName, 
                        const NodeSet nodes,
-			      			     const XPathExecutionContext& executionContext) const
+                       const DOMNode& context,
+                       const XPathExecutionContext& executionContext) const
   {
     NodeSet results;
     for(typename NodeSet::const_iterator n = nodes.begin(), ne = nodes.end(); n != ne; ++n)
     {
       string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*n);
-      results.push_back(keys_.lookup(keyClarkName, id, executionContext));
+      results.push_back(keys_.lookup(keyClarkName, id, context, executionContext));
     } // for ...
     results.to_document_order();
     return results;
diff --git a/include/XSLT/impl/xslt_key.hpp b/include/XSLT/impl/xslt_key.hpp
index 2f820ac..75666d6 100644
--- a/include/XSLT/impl/xslt_key.hpp
+++ b/include/XSLT/impl/xslt_key.hpp
@@ -25,12 +25,12 @@ public:
   {
   } // Key
 
-  NodeSet lookup(const string_type& value, const XPathContext& context) const
+  NodeSet lookup(const string_type& value, const DOMNode& node, const XPathContext& context) const
   {
-    DOMNode doc = XPath::impl::get_owner_document(context.currentNode());
+    DOMNode doc = XPath::impl::get_owner_document(node);
     DocumentNodeMapIterator nm = nodesPerDocument_.find(doc.underlying_impl());
     if(nm == nodesPerDocument_.end())
-      populate(nodesPerDocument_[doc.underlying_impl()], context);
+      populate(nodesPerDocument_[doc.underlying_impl()], doc, context);
 
     const NodeMap& nodes = nodesPerDocument_[doc.underlying_impl()];
     NodeMapIterator f = nodes.find(value);
@@ -40,37 +40,59 @@ public:
     return f->second;
   } // lookup
 
+  void clear() { nodesPerDocument_.clear(); }
+
 private:
   typedef std::map<string_type, NodeSet> NodeMap;
   typedef typename NodeMap::const_iterator NodeMapIterator;
   typedef std::map<DOM::Node_impl<string_type, string_adaptor>*, NodeMap> DocumentNodeMap;
   typedef typename DocumentNodeMap::const_iterator DocumentNodeMapIterator;
-  typedef typename NodeSet::iterator NodeSetIterator;
+  typedef typename NodeSet::const_iterator NodeSetIterator;
   typedef typename MatchExprList::const_iterator MatchExprListIterator;
  
-  void populate(NodeMap& nodes, const XPathContext& context) const
+  void populate(NodeMap& nodes, const DOMNode& document, const XPathContext& context) const
   {
     typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
 
-    DOMNode current = XPath::impl::get_owner_document(context.currentNode());
-
-    for(AxisEnum ae(current, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
+    for(AxisEnum ae(document, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
     {
       DOMNode node = *ae;
-      for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
-        if(me->evaluate(node, context))
-        {
-	        NodeSet ids = use_.evaluateAsNodeSet(node, context);
-	        for(NodeSetIterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
-	        {
-	          string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i);
-	          nodes[id].push_back(node);
-	        } // for ...
-          break;
-        } // if ...
+      index(nodes, node, context);
+      if(node.getNodeType() == DOM::Node_base::ELEMENT_NODE)
+        for(AxisEnum at(node, XPath::ATTRIBUTE); *at != 0; ++at)
+          index(nodes, *at, context);
     } // for 
   } // populate
 
+  void index(NodeMap& nodes, const DOMNode& node, const XPathContext& context) const
+  {
+    for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
+      if(me->evaluate(node, context))
+      {
+        XPathContext useContext(1, context);
+        useContext.setCurrentNode(node);
+        useContext.setPosition(1);
+        Arabica::XPath::XPathValue<string_type, string_adaptor> use = use_.evaluate(node, useContext);
+        if(use.type() != Arabica::XPath::NODE_SET)
+        {
+          add(nodes, use.asString(), node);
+          return;
+        } // if ...
+
+        const NodeSet& ids = use.asNodeSet();
+        for(NodeSetIterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
+          add(nodes, Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i), node);
+        return;
+      } // if ...
+  } // index
+
+  void add(NodeMap& nodes, const string_type& id, const DOMNode& node) const
+  {
+    NodeSet& matching = nodes[id];
+    if(matching.empty() || (matching[matching.size()-1] != node))
+      matching.push_back(node);
+  } // add
+
   MatchExprList matches_;
   XPathExpression use_;
   mutable DocumentNodeMap nodesPerDocument_;
@@ -97,8 +119,17 @@ public:
     keys_[name].push_back(key);
   } // add_key
 
+  // forget the nodes found in previous runs
+  void clear() const
+  {
+    for(KeysIterator i = keys_.begin(), ie = keys_.end(); i != ie; ++i)
+      for(KeyListIterator k = i->second.begin(), ke = i->second.end(); k != ke; ++k)
+        (*k)->clear();
+  } // clear
+
   NodeSet lookup(const string_type& name,
 	               const string_type& id,
+                 const DOM::Node<string_type, string_adaptor>& node,
                  const XPathContext& context) const
   {
     const KeysIterator k = keys_.find(name);
@@ -106,11 +137,11 @@ public:
       throw SAX::SAXException("No key named '" + string_adaptor::asStdString(name) + "' has been defined.");
     
     if(k->second.size() == 1)
-      return k->second[0]->lookup(id, context);
+      return k->second[0]->lookup(id, node, context);
     
     NodeSet nodes;
     for(KeyListIterator key = k->second.begin(), keye = k->second.end(); key != keye; ++key)    
-      nodes.push_back((*key)->lookup(id, context));
+      nodes.push_back((*key)->lookup(id, node, context));
     nodes.to_document_order();
     return nodes;
   } // lookup
-- 
2.43.0


From 72ae1bc75bd2b04aa7fe824549b59d0b87be14fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:23 +0000
Subject: [PATCH 48/53] fix: a sink used again after a run that failed starts
 afresh

---
 include/XSLT/impl/xslt_output.hpp | 18 ++++++++++++++++--
 include/XSLT/impl/xslt_sink.hpp   |  7 +++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 4b20e2c..0889077 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -40,8 +40,8 @@ public:
   {
     typename Settings::const_iterator method = settings.find(SC::method);
     text_mode_ = (method != settings.end() && method->second == SC::text);
-    if(text_mode_)
-      do_disableOutputEscaping(true);
+    do_disableOutputEscaping(text_mode_);
+    forget();
 
     cdataElements_ = cdataElements;
     do_start_document(settings);
@@ -280,6 +280,20 @@ protected:
   virtual bool want_namespace_declarations() const = 0;
 
 private:
+  // an earlier run might have stopped in the middle of something
+  void forget()
+  {
+    buffering_ = 0;
+    pending_element_ = false;
+    pending_text_ = false;
+    empty_text_ = false;
+    pending_attribute_ = -1;
+    while(!element_stack_.empty())
+      element_stack_.pop();
+    atts_.clear();
+    namespaceStack_ = NamespaceStack<string_type, string_adaptor>();
+  } // forget
+
   string_type escape(string_type str, const string_type& t, const string_type& r) const
   {
     typename string_adaptor::size_type naughty = string_adaptor::find(str, t);
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 0c75d1c..8cc814c 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -129,11 +129,13 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    in_cdata_ = false;
+    empty_ = false;
     seen_root_ = false;
     seen_decl_ = false;
+    out_again_ = false;
     settings_ = settings;
-    if(setting(SC::indent) == SC::yes)
-      indent_ = 0;
+    indent_ = (setting(SC::indent) == SC::yes) ? 0 : -1;
   } // do_start_document
 
   void do_end_document()
@@ -386,6 +388,7 @@ protected:
 
   void do_start_document(const Settings& /* settings */)
   {
+    current_ = documentFrag_;
   } // do_start_document
 
   void do_end_document()
-- 
2.43.0


From e606f11fcadefb0f67d6ba4bb6ec1fcf0efc12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:44 +0000
Subject: [PATCH 49/53] fix: xslt rejects stylesheets it used to accept in
 error, and accepts foreign attributes everywhere

---
 .../handler/xslt_apply_imports_handler.hpp    |  6 +--
 .../handler/xslt_apply_templates_handler.hpp  |  8 +++-
 .../handler/xslt_call_template_handler.hpp    |  5 ++-
 .../XSLT/impl/handler/xslt_choose_handler.hpp | 12 +++---
 .../impl/handler/xslt_comment_handler.hpp     |  6 +--
 .../impl/handler/xslt_for_each_handler.hpp    |  9 +++++
 .../handler/xslt_namespace_alias_handler.hpp  |  1 +
 .../XSLT/impl/handler/xslt_sort_handler.hpp   |  3 ++
 .../impl/handler/xslt_template_handler.hpp    | 39 +++++++++++++++++--
 .../impl/handler/xslt_value_validation.hpp    |  8 +++-
 .../impl/handler/xslt_variable_handler.hpp    | 12 +++++-
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 37 +++++++++++++-----
 include/XSLT/impl/xslt_execution_context.hpp  | 26 ++++++++++++-
 include/XSLT/impl/xslt_for_each.hpp           |  1 +
 include/XSLT/impl/xslt_variable_stack.hpp     |  1 +
 15 files changed, 141 insertions(+), 33 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp b/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
index 3aca8f9..790bf88 100644
--- a/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
@@ -27,13 +27,13 @@ public:
 
   virtual void startElement(const string_type& /* namespaceURI */,
 			    const string_type& /* localName */,
-			    const string_type& /* qName */,
+			    const string_type& qName,
 			    const SAX::Attributes<string_type, string_adaptor>& atts)
   {
     if(applyImports_ == 0)
     {
-      if(atts.getLength() != 0)
-	      throw SAX::SAXException("xsl:apply-imports element does not have any attributes");
+      static const AttributeValidators<string_type, string_adaptor> rules = AttributeValidators<string_type, string_adaptor>::none();
+      rules.gather(qName, atts);
       applyImports_ = new ApplyImports<string_type, string_adaptor>();
       return;
     } // if(applyImports_ == 0)
diff --git a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
index af3281e..aaa6c2d 100644
--- a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
@@ -40,12 +40,16 @@ public:
     
       const string_type& select = attrs[SC::select];
       Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> xpath;
-      if(select != string_adaptor::empty_string())
+      if(atts.getIndex(SC::select) != -1)
         xpath = context_.xpath_expression(select);
 
       string_type mode;
-      if(attrs[SC::mode] != string_adaptor::empty_string())
+      if(atts.getIndex(SC::mode) != -1)
+      {
+        if(attrs[SC::mode] == string_adaptor::empty_string())
+          throw SAX::SAXException("xsl:apply-templates mode cannot be empty");
         mode = context_.processInternalQName(attrs[SC::mode]).clarkName();
+      } // if ...
       applyTemplates_ = new ApplyTemplates<string_type, string_adaptor>(xpath, mode);
 
       return;
diff --git a/include/XSLT/impl/handler/xslt_call_template_handler.hpp b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
index 0d817f2..20ec698 100644
--- a/include/XSLT/impl/handler/xslt_call_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
@@ -52,7 +52,7 @@ public:
        return;
     } // if(localName == "with-param")
   
-    throw SAX::SAXException("xsl:call-template can only contain xsl:sort and xsl:with-param elements.");
+    throw SAX::SAXException("xsl:call-template can only contain xsl:with-param elements.");
   } // startElement
 
   virtual void endElement(const string_type& /* namespaceURI */,
@@ -63,8 +63,9 @@ public:
     context_.pop();
   } // endElement
 
-  virtual void characters(const string_type& /* ch */)
+  virtual void characters(const string_type& ch)
   {
+    verifyNoCharacterData<string_type, string_adaptor>(ch, SC::call_template);
   } // characters
 
 private:
diff --git a/include/XSLT/impl/handler/xslt_choose_handler.hpp b/include/XSLT/impl/handler/xslt_choose_handler.hpp
index 928700e..b891c5c 100644
--- a/include/XSLT/impl/handler/xslt_choose_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_choose_handler.hpp
@@ -55,6 +55,7 @@ class OtherwiseHandler : public ItemContainerHandler<Otherwise<string_type, stri
 {
   typedef ItemContainerHandler<Otherwise<string_type, string_adaptor> > baseT;
   typedef StylesheetConstant<string_type, string_adaptor> SC;
+  typedef AttributeValidators<string_type, string_adaptor> AV;
 
 public:
   OtherwiseHandler(Choose<string_type, string_adaptor>* choose,
@@ -66,11 +67,11 @@ public:
 
   virtual Otherwise<string_type, string_adaptor>* createContainer(const string_type& /* namespaceURI */,
                                      const string_type& /* localName */,
-                                     const string_type& /* qName */,
+                                     const string_type& qName,
                                      const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(atts.getLength())
-      throw SAX::SAXException("xsl:otherwise may not have any attributes");
+    static const AV rules = AV::none();
+    rules.gather(qName, atts);
 
     return new Otherwise<string_type, string_adaptor>();
   } // createContainer
@@ -91,6 +92,7 @@ template<class string_type, class string_adaptor>
 class ChooseHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 {
   typedef StylesheetConstant<string_type, string_adaptor> SC;
+  typedef AttributeValidators<string_type, string_adaptor> AV;
 public:
   ChooseHandler(CompilationContext<string_type, string_adaptor>& context) :
       context_(context),
@@ -107,8 +109,8 @@ public:
   {
     if(!choose_)
     {
-      if(atts.getLength() != 0)
-        throw SAX::SAXException("xsl:choose can not have attributes");
+      static const AV rules = AV::none();
+      rules.gather(qName, atts);
 
       choose_ = new Choose<string_type, string_adaptor>();
       return;
diff --git a/include/XSLT/impl/handler/xslt_comment_handler.hpp b/include/XSLT/impl/handler/xslt_comment_handler.hpp
index ef4a468..94028e3 100644
--- a/include/XSLT/impl/handler/xslt_comment_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_comment_handler.hpp
@@ -23,11 +23,11 @@ public:
 
   virtual Comment<string_type, string_adaptor>* createContainer(const string_type& /* namespaceURI */,
                                    const string_type& /* localName */,
-                                   const string_type& /* qName */,
+                                   const string_type& qName,
                                    const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(atts.getLength() != 0)
-      throw SAX::SAXException("xsl:comment can not have attributes");
+    static const AttributeValidators<string_type, string_adaptor> rules = AttributeValidators<string_type, string_adaptor>::none();
+    rules.gather(qName, atts);
 
     return new Comment<string_type, string_adaptor>();
   } // createContainer
diff --git a/include/XSLT/impl/handler/xslt_for_each_handler.hpp b/include/XSLT/impl/handler/xslt_for_each_handler.hpp
index 45ed637..df65304 100644
--- a/include/XSLT/impl/handler/xslt_for_each_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_for_each_handler.hpp
@@ -24,6 +24,15 @@ public:
   {
   } // ForEachHandler
 
+  virtual void characters(const string_type& ch)
+  {
+    for(typename string_adaptor::const_iterator i = string_adaptor::begin(ch), e = string_adaptor::end(ch); i != e; ++i)
+      if(!Arabica::XML::is_space(*i))
+        done_sort_ = true; // anything other than whitespace ends the sorts
+
+    baseT::characters(ch);
+  } // characters
+
 protected:
   virtual ForEach<string_type, string_adaptor>* createContainer(const string_type& /* namespaceURI */,
                                    const string_type& /* localName */,
diff --git a/include/XSLT/impl/handler/xslt_namespace_alias_handler.hpp b/include/XSLT/impl/handler/xslt_namespace_alias_handler.hpp
index a6d03b4..1fa65c6 100644
--- a/include/XSLT/impl/handler/xslt_namespace_alias_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_namespace_alias_handler.hpp
@@ -30,6 +30,7 @@ public:
   {
     if(!done_)
     {
+      done_ = true;
       static const AV rules = AV::rule(SC::stylesheet_prefix, true)
                                  .rule(SC::result_prefix, true);
 
diff --git a/include/XSLT/impl/handler/xslt_sort_handler.hpp b/include/XSLT/impl/handler/xslt_sort_handler.hpp
index 035ed90..bf1bd52 100644
--- a/include/XSLT/impl/handler/xslt_sort_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_sort_handler.hpp
@@ -44,7 +44,10 @@ public:
       caseorder = context_.xpath_attribute_value_template(attr[SC::case_order]);
 
       if(string_adaptor::length(attr[SC::lang]) != 0)
+      {
+        lang = context_.xpath_attribute_value_template(attr[SC::lang]);
 	      std::cerr << "Sorry!  Don't support xsl:sort lang attribute yet" << std::endl;
+      } // if ...
  
       sort_ = new Sort<string_type, string_adaptor>(select,
                        lang, 
diff --git a/include/XSLT/impl/handler/xslt_template_handler.hpp b/include/XSLT/impl/handler/xslt_template_handler.hpp
index c66852c..925a358 100644
--- a/include/XSLT/impl/handler/xslt_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_template_handler.hpp
@@ -63,13 +63,20 @@ protected:
         throw SAX::SAXException("xsl:template may not have a mode without a match");
     } // ...
 
+    if((atts.getIndex(SC::match) != -1) && (match == string_adaptor::empty_string()))
+      throw SAX::SAXException("xsl:template match cannot be empty");
+
     const string_type& priority = attributes[SC::priority];
-    if((atts.getIndex(SC::priority) != -1) && (priority == string_adaptor::empty_string()))
-      throw SAX::SAXException("xsl:template priority cannot be empty");
+    if(atts.getIndex(SC::priority) != -1)
+      verifyNumber(priority);
 
     string_type name;
-    if(attributes[SC::name] != string_adaptor::empty_string())
+    if(atts.getIndex(SC::name) != -1)
+    {
+      if(attributes[SC::name] == string_adaptor::empty_string())
+        throw SAX::SAXException("xsl:template name cannot be empty");
       name = baseT::context().processInternalQName(attributes[SC::name]).clarkName();
+    } // if ...
 
     string_type mode;
     if(attributes[SC::mode] != string_adaptor::empty_string())
@@ -81,7 +88,7 @@ protected:
 			  priority,
         baseT::context().precedence());
 
-    return new Template<string_type, string_adaptor>(baseT::context().xpath_match(match),
+    return new Template<string_type, string_adaptor>(baseT::context().xpath_match_no_variables(match),
 			name,
 			mode,
 			priority,
@@ -124,6 +131,30 @@ public:
   } // endElement
 
 private:
+  // priority is '-'? followed by digits, with at most one decimal point
+  static void verifyNumber(const string_type& priority)
+  {
+    string_type number = Arabica::text::normalize_whitespace<string_type, string_adaptor>(priority);
+    typename string_adaptor::const_iterator i = string_adaptor::begin(number), e = string_adaptor::end(number);
+    if((i != e) && (*i == '-'))
+      ++i;
+    int digits = 0, points = 0;
+    for(; i != e; ++i)
+    {
+      if((*i >= '0') && (*i <= '9'))
+        ++digits;
+      else if((*i == '.') && (points == 0))
+        ++points;
+      else
+      {
+        digits = 0;
+        break;
+      } // if ...
+    } // for ...
+    if(digits == 0)
+      throw SAX::SAXException("xsl:template priority must be a number");
+  } // verifyNumber
+
   bool done_params_;
 }; // class TemplateHandler
 
diff --git a/include/XSLT/impl/handler/xslt_value_validation.hpp b/include/XSLT/impl/handler/xslt_value_validation.hpp
index d294766..df488ca 100644
--- a/include/XSLT/impl/handler/xslt_value_validation.hpp
+++ b/include/XSLT/impl/handler/xslt_value_validation.hpp
@@ -124,6 +124,7 @@ class AttributeValidators
   typedef StylesheetConstant<string_type, string_adaptor> SC;
 
 public:
+  static AttributeValidators<string_type, string_adaptor> none() { return AttributeValidators<string_type, string_adaptor>(); }
   static AttributeValidatorsBuilder<string_type, string_adaptor> rule(const string_type& name, bool required);
   static AttributeValidatorsBuilder<string_type, string_adaptor> rule(const string_type& name, 
                                                                       bool required,
@@ -159,10 +160,13 @@ public:
       const string_type& uri = atts.getURI(a);
       const string_type& value = atts.getValue(a);
 
-      results[name] = value;
-
       if(uri == string_adaptor::empty_string())
+      {
         validateAttribute(parentElement, name, value);
+        results[name] = value;
+      }
+      else if(uri == SC::NamespaceURI)
+        throw SAX::SAXException(string_adaptor::asStdString(parentElement) + ": Illegal attribute " + string_adaptor::asStdString(atts.getQName(a)));
       else if(uri == SC::xml_uri)
         validateXmlAttribute(parentElement, name, value); // special xml: attributes
     } // for ...
diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index 5c3f7be..3d40245 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -49,7 +49,7 @@ protected:
 
     const string_type& select = atts.getValue(SC::select);
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> xpath;
-    if(select != string_adaptor::empty_string())
+    if(atts.getIndex(SC::select) != -1)
     {
       xpath = baseT::context().xpath_expression(select);
       has_select_ = true;
@@ -70,6 +70,16 @@ protected:
     ItemContainerHandler<VType>::characters(ch);
   } // characters
 
+  virtual bool createChild(const string_type& namespaceURI,
+                           const string_type& localName,
+                           const string_type& qName,
+                           const SAX::Attributes<string_type, string_adaptor>& atts)
+  {
+    if(has_select_)
+      throw SAX::SAXException("A variable or param can not have both a select attribute and content");
+    return ItemContainerHandler<VType>::createChild(namespaceURI, localName, qName, atts);
+  } // createChild
+
 private:
   bool has_select_;
   const Precedence precedence_;
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index e5ef143..a7ffaa6 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -52,6 +52,7 @@ public:
   typedef DOM::NodeList<string_type, string_adaptor> DOMNodeList;
 
   CompiledStylesheet() :
+      has_current_rule_(false),
       output_(new StreamSink<string_type, string_adaptor>(streams::out())),
       error_output_(&streams::err())
   {
@@ -234,6 +235,8 @@ public:
 
   void applyImports(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!has_current_rule_)
+      throw SAX::SAXException("xsl:apply-imports used when there is no current template rule");
     doApplyTemplates(node, context, current_mode_, current_generation_);
   } // applyImports
 
@@ -244,7 +247,7 @@ private:
                         const Precedence& generation) const
   {
     StackFrame<string_type, string_adaptor> frame(context);
-    CurrentRuleFrame ruleFrame(current_mode_, current_generation_);
+    CurrentRuleFrame ruleFrame(*this, true);
 
     std::vector<Precedence> lower_precedences;
     for(TemplateStackIterator ts = templates_.begin(), tse = templates_.end(); ts != tse; ++ts)
@@ -320,23 +323,25 @@ private:
   class CurrentRuleFrame
   {
   public:
-    CurrentRuleFrame(string_type& mode, Precedence& generation) :
-      mode_(mode),
-      generation_(generation),
-      oldMode_(mode),
-      oldGeneration_(generation)
+    CurrentRuleFrame(const CompiledStylesheet& stylesheet, bool has_rule) :
+      stylesheet_(stylesheet),
+      oldHasRule_(stylesheet.has_current_rule_),
+      oldMode_(stylesheet.current_mode_),
+      oldGeneration_(stylesheet.current_generation_)
     {
+      stylesheet_.has_current_rule_ = has_rule;
     } // CurrentRuleFrame
 
     ~CurrentRuleFrame()
     {
-      mode_ = oldMode_;
-      generation_ = oldGeneration_;
+      stylesheet_.has_current_rule_ = oldHasRule_;
+      stylesheet_.current_mode_ = oldMode_;
+      stylesheet_.current_generation_ = oldGeneration_;
     } // ~CurrentRuleFrame
 
   private:
-    string_type& mode_;
-    Precedence& generation_;
+    const CompiledStylesheet& stylesheet_;
+    bool oldHasRule_;
     string_type oldMode_;
     Precedence oldGeneration_;
 
@@ -344,6 +349,17 @@ private:
     CurrentRuleFrame& operator=(const CurrentRuleFrame&);
   }; // class CurrentRuleFrame
 
+public:
+  // there is no current template rule inside xsl:for-each, so xsl:apply-imports can't be used there
+  class NoCurrentRule
+  {
+  public:
+    explicit NoCurrentRule(const CompiledStylesheet& stylesheet) : frame_(stylesheet, false) { }
+  private:
+    CurrentRuleFrame frame_;
+  }; // class NoCurrentRule
+
+private:
   class MatchTemplate
   {
   public:
@@ -394,6 +410,7 @@ private:
   DeclaredKeys<string_type, string_adaptor> keys_;
   ParamList params_;
 
+  mutable bool has_current_rule_;
   mutable string_type current_mode_;
   mutable Precedence current_generation_;
 
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index ff12cab..539a4ce 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -148,7 +148,10 @@ public:
   virtual Arabica::XPath::XPathValue<string_type, string_adaptor> value() const 
   {
     if(!value_)
+    {
+      Evaluating evaluating(evaluating_, var_.name());
       value_ = var_.value(node_, context_, sink_);
+    } // if ...
     return value_;
   } // value
 
@@ -164,15 +167,36 @@ private:
       var_(var),
       sink_(),
       node_(node),
-      context_(sink_, context)
+      context_(sink_, context),
+      evaluating_(false)
   {
   } // VariableClosure
 
+  // a variable whose value is wanted while its value is being worked out refers to itself
+  class Evaluating
+  {
+  public:
+    Evaluating(bool& flag, const string_type& name) : flag_(flag)
+    {
+      if(flag_)
+        throw std::runtime_error("Circular dependency: " + string_adaptor::asStdString(name) + " refers to itself directly or indirectly.");
+      flag_ = true;
+    } // Evaluating
+    ~Evaluating() { flag_ = false; }
+
+  private:
+    bool& flag_;
+
+    Evaluating(const Evaluating&);
+    Evaluating& operator=(const Evaluating&);
+  }; // class Evaluating
+
   const Variable_declaration<string_type, string_adaptor>& var_;
   mutable DOMSink<string_type, string_adaptor> sink_;
   const DOM::Node<string_type, string_adaptor> node_;
   mutable ExecutionContext<string_type, string_adaptor> context_;
   mutable Arabica::XPath::XPathValue<string_type, string_adaptor> value_;
+  mutable bool evaluating_;
 
   VariableClosure();
   VariableClosure(const VariableClosure&);
diff --git a/include/XSLT/impl/xslt_for_each.hpp b/include/XSLT/impl/xslt_for_each.hpp
index b332141..4ebe221 100644
--- a/include/XSLT/impl/xslt_for_each.hpp
+++ b/include/XSLT/impl/xslt_for_each.hpp
@@ -42,6 +42,7 @@ public:
     NodeSet nodes = sel.asNodeSet();
     this->sort(node, nodes, context);
 
+    typename CompiledStylesheet<string_type, string_adaptor>::NoCurrentRule noRule(context.stylesheet());
     LastFrame<string_type, string_adaptor> last(context, nodes.size());
     for(size_t n = 0, e = nodes.size(); n != e; ++n)
     {
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index 6f0417d..09eafe9 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -94,6 +94,7 @@ public:
 
     if(params.find(name) != params.end())
       throw std::runtime_error("Duplicate parameter name in xsl:with-param - " + string_adaptor::asStdString(name));
+    param->value(); // as seen by the caller, so it can't wait until the template being called wants it
     params[name] = param;
     return name;
   } // passParam
-- 
2.43.0


From a0002cbefdb26eed09a51eb8c2cf843a9c790127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:17 +0000
Subject: [PATCH 50/53] fix: the SAX writer writes what it is given: no
 duplicate xmlns attributes, ]]> in CDATA, quotes and references in
 declarations, and starts afresh

---
 include/SAX/filter/Writer.hpp | 86 +++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 13 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 59d1292..e481555 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -47,6 +47,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     Writer(ostreamT& stream, unsigned int indent = 2) :
       inStartTag_(false),
       inCDATA_(false),
+      brackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -61,6 +62,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       XMLFilterT(parent),
       inStartTag_(false),
       inCDATA_(false),
+      brackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -74,6 +76,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     Writer(ostreamT& stream, const string_type& encoding, unsigned int indent = 2) :
       inStartTag_(false),
       inCDATA_(false),
+      brackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -88,6 +91,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       XMLFilterT(parent),
       inStartTag_(false),
       inCDATA_(false),
+      brackets_(0),
       inDTD_(false),
       internalSubset_(true),
       indent_(indent),
@@ -145,6 +149,8 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     /////////////////
     void startEntityDecl(const string_type& name);
     void publicAndSystem(const string_type& publicId, const string_type& systemId);
+    void writeQuoted(const string_type& id);
+    void writeEntityValue(const string_type& value);
     void doIndent();
     bool isDtd(const string_type& name);
 
@@ -158,6 +164,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     AttributesImplT prefixMappings_;
     bool inStartTag_;
     bool inCDATA_;
+    int brackets_; // number of ]s just written in the CDATA section
     bool inDTD_;
     bool internalSubset_;
     int indent_;
@@ -170,7 +177,12 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::startDocument()
 {
-  startElementClose();
+  // a previous document might have stopped anywhere
+  inStartTag_ = false;
+  inDTD_ = false;
+  internalSubset_ = true;
+  prefixMappings_.clear();
+
   *stream_ << UnicodeT::LESS_THAN_SIGN
            << UnicodeT::QUESTION_MARK
            << UnicodeT::LOWERCASE_X
@@ -263,8 +275,15 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   doIndent();
   *stream_ << UnicodeT::LESS_THAN_SIGN << (!qName.empty() ? qName : localName);
 
-  writeAttributes(prefixMappings_);
+  // with namespace-prefixes on, namespace declarations are reported as attributes too
+  AttributesImplT declarations;
+  for(int i = 0; i < prefixMappings_.getLength(); ++i)
+    if(atts.getIndex(prefixMappings_.getQName(i)) == -1)
+      declarations.addAttribute(prefixMappings_.getURI(i), prefixMappings_.getLocalName(i),
+                                prefixMappings_.getQName(i),
+                                prefixMappings_.getType(i), prefixMappings_.getValue(i));
   prefixMappings_.clear();
+  writeAttributes(declarations);
   writeAttributes(atts);
 
   inStartTag_ = true;
@@ -345,7 +364,24 @@ void Writer<string_type, string_adaptor>::characters(const string_type& ch)
   if(!inCDATA_)
     std::for_each(ch.begin(), ch.end(), text_escaperT(*stream_));
   else
-    *stream_ << ch;
+    for(typename string_type::const_iterator i = ch.begin(), e = ch.end(); i != e; ++i)
+    {
+      if((*i == UnicodeT::GREATER_THAN_SIGN) && (brackets_ >= 2)) // ]]> has to be split between two sections
+        *stream_ << UnicodeT::RIGHT_SQUARE_BRACKET
+                 << UnicodeT::RIGHT_SQUARE_BRACKET
+                 << UnicodeT::GREATER_THAN_SIGN
+                 << UnicodeT::LESS_THAN_SIGN
+                 << UnicodeT::EXCLAMATION_MARK
+                 << UnicodeT::LEFT_SQUARE_BRACKET
+                 << UnicodeT::CAPITAL_C
+                 << UnicodeT::CAPITAL_D
+                 << UnicodeT::CAPITAL_A
+                 << UnicodeT::CAPITAL_T
+                 << UnicodeT::CAPITAL_A
+                 << UnicodeT::LEFT_SQUARE_BRACKET;
+      brackets_ = (*i == UnicodeT::RIGHT_SQUARE_BRACKET) ? brackets_ + 1 : 0;
+      *stream_ << *i;
+    } // for ...
 
   XMLFilterT::characters(ch);
 } // characters
@@ -474,6 +510,7 @@ void Writer<string_type, string_adaptor>::startCDATA()
 {
   startElementClose();
   inCDATA_ = true;
+  brackets_ = 0;
 
   *stream_ << UnicodeT::LESS_THAN_SIGN
            << UnicodeT::EXCLAMATION_MARK
@@ -632,11 +669,14 @@ void Writer<string_type, string_adaptor>::attributeDecl(const string_type& eleme
       *stream_ << UnicodeT::SPACE
                << valueDefault;
 
-    if(!value.empty())
+    // #REQUIRED and #IMPLIED attributes have no default, others do even if it's an empty string
+    if(!value.empty() || valueDefault.empty() || (valueDefault.length() == 6 && valueDefault[1] == UnicodeT::CAPITAL_F))
+    {
       *stream_ << UnicodeT::SPACE
-               << UnicodeT::QUOTATION_MARK
-               << value
                << UnicodeT::QUOTATION_MARK;
+      std::for_each(value.begin(), value.end(), attribute_escaperT(*stream_));
+      *stream_ << UnicodeT::QUOTATION_MARK;
+    } // if ...
 
     *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
@@ -654,9 +694,9 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
     doIndent();
     startEntityDecl(name);
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << value
-             << UnicodeT::QUOTATION_MARK
+             << UnicodeT::QUOTATION_MARK;
+    writeEntityValue(value);
+    *stream_ << UnicodeT::QUOTATION_MARK
              << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
   } // if ...
@@ -729,13 +769,33 @@ void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& pub
                << UnicodeT::CAPITAL_T
                << UnicodeT::CAPITAL_E
                << UnicodeT::CAPITAL_M;
-    *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << systemId
-             << UnicodeT::QUOTATION_MARK;
+    *stream_ << UnicodeT::SPACE;
+    writeQuoted(systemId);
   } // if ...
 } // publicAndSystem
 
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::writeQuoted(const string_type& id)
+{
+  // system identifiers can't be escaped, but they can't contain both kinds of quote either
+  charT quote = UnicodeT::QUOTATION_MARK;
+  if(std::find(id.begin(), id.end(), quote) != id.end())
+    quote = UnicodeT::APOSTROPHE;
+  *stream_ << quote << id << quote;
+} // writeQuoted
+
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::writeEntityValue(const string_type& value)
+{
+  // the value is the replacement text, in which character references have already been expanded
+  for(typename string_type::const_iterator i = value.begin(), e = value.end(); i != e; ++i)
+    if((*i == UnicodeT::AMPERSAND) || (*i == UnicodeT::PERCENT_SIGN) ||
+       (*i == UnicodeT::QUOTATION_MARK) || (*i == UnicodeT::CARRIAGE_RETURN))
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN << static_cast<int>(*i) << UnicodeT::SEMI_COLON;
+    else
+      *stream_ << *i;
+} // writeEntityValue
+
 } // namespace SAX
 } // namespace Arabica
 
-- 
2.43.0


From 71814d64abb89fe50bb2fb9a80ef5f5ceb95b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:17 +0000
Subject: [PATCH 51/53] fix: xml:base tracking starts from the document's
 location, and recovers when a document stops part way

---
 include/SAX/filter/XMLBaseTracker.hpp  | 43 ++++++++++++++++++++++----
 include/SAX/helpers/LocatorImpl.hpp    |  6 ++--
 include/SAX/helpers/XMLBaseSupport.hpp | 21 +++++++++++--
 3 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..8b702e8 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -21,18 +21,21 @@ public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Locator<string_type, string_adaptor> LocatorT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef InputSource<string_type, string_adaptor> InputSourceT;
 
   XMLBaseTracker() : 
     XMLFilterT(),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    location_set_(false)
   { 
   } // XMLBaseTracker
 
   XMLBaseTracker(XMLReaderT& parent) : 
     XMLFilterT(parent),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    location_set_(false)
   { 
   } // XMLBaseTracker
 
@@ -41,6 +44,7 @@ public:
   void setDocumentLocation(const string_type& loc)
   {
     setDocLoc(loc);
+    location_set_ = true;
   } // setDocumentLocation
 
   virtual void setDocumentLocator(const LocatorT& locator)
@@ -49,9 +53,17 @@ public:
     XMLFilterT::setDocumentLocator(locator);
   } // setDocumentLocator
 
+  virtual void parse(InputSourceT& source)
+  {
+    base_set_ = location_set_;
+    Restarter restarter(xmlbase_);
+    XMLFilterT::parse(source);
+  } // parse
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    setDocLocFromLocator();
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
@@ -65,19 +77,37 @@ public:
 
   string_type currentBase() const
   {
-    if(!base_set_ && locator_)
-      setDocLoc(locator_->getSystemId());
+    setDocLocFromLocator();
     return xmlbase_.currentBase();
   } // currentBase
 
   string_type makeAbsolute(const string_type& url) const
   {
-    if(!base_set_ && locator_)
-      setDocLoc(locator_->getSystemId());
+    setDocLocFromLocator();
     return xmlbase_.makeAbsolute(url);
   } // makeAbsolute
 
 private:
+  // ready for the next document, even if this one stops part way
+  class Restarter
+  {
+  public:
+    explicit Restarter(XMLBaseSupportT& xmlbase) : xmlbase_(xmlbase) { }
+    ~Restarter() { xmlbase_.restart(); }
+
+  private:
+    XMLBaseSupportT& xmlbase_;
+
+    Restarter(const Restarter&);
+    Restarter& operator=(const Restarter&);
+  }; // class Restarter
+
+  void setDocLocFromLocator() const
+  {
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
+  } // setDocLocFromLocator
+
   void setDocLoc(const string_type& loc) const
   {
     base_set_ = true;
@@ -87,6 +117,7 @@ private:
   mutable XMLBaseSupportT xmlbase_;
   const LocatorT* locator_;
   mutable bool base_set_;
+  bool location_set_; // base_set_ by setDocumentLocation, rather than from the locator
 }; // class XMLBaseTracker
 
 } // namespace SAX
diff --git a/include/SAX/helpers/LocatorImpl.hpp b/include/SAX/helpers/LocatorImpl.hpp
index 4505a49..5463a6c 100644
--- a/include/SAX/helpers/LocatorImpl.hpp
+++ b/include/SAX/helpers/LocatorImpl.hpp
@@ -6,7 +6,8 @@
 
 #include <SAX/ArabicaConfig.hpp>
 #include <string>
-#include <Locator.hpp>
+#include <SAX/Locator.hpp>
+#include <Arabica/StringAdaptor.hpp>
 
 namespace Arabica
 {
@@ -48,7 +49,7 @@ namespace SAX
  * @version 2.0
  * @see Locator Locator
  */
-template<class string_type, class string_adaptor>
+template<class string_type, class string_adaptor = Arabica::default_string_adaptor<string_type> >
 class LocatorImpl : public Locator<string_type, string_adaptor>
 {
 public:
@@ -78,6 +79,7 @@ public:
     systemId_ = rhs.getSystemId(); 
     lineNumber_ = rhs.getLineNumber();
     columnNumber_ = rhs.getColumnNumber();
+    return *this;
   } // operator=
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/SAX/helpers/XMLBaseSupport.hpp b/include/SAX/helpers/XMLBaseSupport.hpp
index ce48dbf..c1c2fbd 100644
--- a/include/SAX/helpers/XMLBaseSupport.hpp
+++ b/include/SAX/helpers/XMLBaseSupport.hpp
@@ -21,6 +21,8 @@
 #include <sstream>
 #include <text/UnicodeCharacters.hpp>
 #include <io/uri.hpp>
+#include <SAX/Attributes.hpp>
+#include <Arabica/StringAdaptor.hpp>
 
 namespace Arabica
 {
@@ -56,9 +58,17 @@ public:
 
   void setDocumentLocation(const string_type& loc)
   {
-    bases_.push(std::make_pair(-1, loc));
+    if(depth_ == 0)
+      restart(false);
+    bases_.push(std::make_pair(depth_, loc)); // in force until the element now open, if any, ends
   } // setDocumentLocation
 
+  // back to the start of the document, whatever point had been reached
+  void restart()
+  {
+    restart(true);
+  } // restart
+
   void startElement(const AttributesT& atts)
   {
     ++depth_;
@@ -72,7 +82,7 @@ public:
 
   void endElement()
   {
-    if(currentDepth() == depth_)
+    while((depth_ > 0) && (currentDepth() == depth_))
       bases_.pop();
     --depth_;
   } // endElement
@@ -97,6 +107,13 @@ private:
     return string_adaptor::construct_from_utf8(absolute.as_string().c_str());
   } // absolutise
 
+  void restart(bool keepLocation)
+  {
+    depth_ = 0;
+    while(!bases_.empty() && !(keepLocation && currentDepth() == 0))
+      bases_.pop();
+  } // restart
+
   int currentDepth() const
   {
     if(!bases_.size())
-- 
2.43.0


From 7672d5703c71a6a8a08f61a75b16d0edc3f0626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:17 +0000
Subject: [PATCH 52/53] fix: TextOnly compiles, PYX output is unambiguous,
 filters without a parent report it

---
 include/SAX/filter/PYXWriter.hpp      | 17 ++++++++----
 include/SAX/filter/TextCoalescer.hpp  |  6 +++++
 include/SAX/filter/TextOnly.hpp       | 39 ++++++++++++++-------------
 include/SAX/helpers/XMLFilterImpl.hpp |  3 +++
 4 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/include/SAX/filter/PYXWriter.hpp b/include/SAX/filter/PYXWriter.hpp
index a978f32..f01f886 100644
--- a/include/SAX/filter/PYXWriter.hpp
+++ b/include/SAX/filter/PYXWriter.hpp
@@ -48,6 +48,10 @@ class PYXWriter : public XMLFilterImpl<string_type, string_adaptor>
 
   private: 
     void escape(const string_type& ch);
+    static const string_type& pyxName(const string_type& qName, const string_type& localName)
+    {
+      return !string_adaptor::empty(qName) ? qName : localName;
+    } // pyxName
 
     ostreamT* stream_;
 }; // class PYXWriter
@@ -57,10 +61,10 @@ void PYXWriter<string_type, string_adaptor>::startElement(
                               const string_type& namespaceURI, const string_type& localName,
                               const string_type& qName, const AttributesT& atts)
 { 
-  *stream_ << UnicodeT::LEFT_PARENTHESIS << localName << std::endl;
+  *stream_ << UnicodeT::LEFT_PARENTHESIS << pyxName(qName, localName) << std::endl;
   for(int i = 0; i < atts.getLength(); ++i)
   {
-    *stream_ << UnicodeT::CAPITAL_A << atts.getLocalName(i) 
+    *stream_ << UnicodeT::CAPITAL_A << pyxName(atts.getQName(i), atts.getLocalName(i)) 
              << UnicodeT::SPACE;
     escape(atts.getValue(i));
     *stream_ << std::endl; 
@@ -74,7 +78,7 @@ void PYXWriter<string_type, string_adaptor>::endElement(
                             const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName)
 {
-  *stream_ << UnicodeT::RIGHT_PARENTHESIS << localName << std::endl;
+  *stream_ << UnicodeT::RIGHT_PARENTHESIS << pyxName(qName, localName) << std::endl;
 
   XMLFilterT::endElement(namespaceURI, localName, qName);
 } // endElement
@@ -93,8 +97,9 @@ template<class string_type, class string_adaptor>
 void PYXWriter<string_type, string_adaptor>::processingInstruction(const string_type& target, const string_type& data)
 {
   *stream_ << UnicodeT::QUESTION_MARK << target
-           << UnicodeT::SPACE << data
-           << std::endl;
+           << UnicodeT::SPACE;
+  escape(data);
+  *stream_ << std::endl;
 
   XMLFilterT::processingInstruction(target, data);
 } // processingInstruction
@@ -105,6 +110,8 @@ void PYXWriter<string_type, string_adaptor>::escape(const string_type& ch)
   for(typename string_adaptor::const_iterator s = string_adaptor::begin(ch), se = string_adaptor::end(ch); s != se; ++s)
     if(*s == UnicodeT::LINE_FEED)
       *stream_ << UnicodeT::BACK_SLASH << UnicodeT::LOWERCASE_N;
+    else if(*s == UnicodeT::BACK_SLASH)
+      *stream_ << UnicodeT::BACK_SLASH << UnicodeT::BACK_SLASH;
     else
       *stream_ << *s;
 } // escape
diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e821112..efc1913 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -40,6 +40,12 @@ public:
     XMLFilterT::startDocument();
   } // startDocument
 
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
   virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
   {
     flush();
diff --git a/include/SAX/filter/TextOnly.hpp b/include/SAX/filter/TextOnly.hpp
index a471466..6432697 100644
--- a/include/SAX/filter/TextOnly.hpp
+++ b/include/SAX/filter/TextOnly.hpp
@@ -20,9 +20,10 @@ class TextOnly : public XMLFilterImpl<string_type, string_adaptor>
 
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
+  typedef Attributes<string_type, string_adaptor> AttributesT;
 
   TextOnly() : 
-    XMLFilterT(0)
+    XMLFilterT()
   { 
   } // TextOnly
 
@@ -32,32 +33,34 @@ public:
   } // TextOnly
 
   // ContentHandler
-  virtual void startElement(const stringT& namespaceURI, const stringT& localName,
-                            const stringT& qName, const AttributesT& atts) { }
-  virtual void endElement(const stringT& namespaceURI, const stringT& localName,
-                          const stringT& qName) { }
-  virtual void processingInstruction(const stringT& target, const stringT& data) { }
-  virtual void skippedEntity(const stringT& name) { }
+  virtual void startPrefixMapping(const string_type&, const string_type&) { }
+  virtual void endPrefixMapping(const string_type&) { }
+  virtual void startElement(const string_type&, const string_type&,
+                            const string_type&, const AttributesT&) { }
+  virtual void endElement(const string_type&, const string_type&,
+                          const string_type&) { }
+  virtual void processingInstruction(const string_type&, const string_type&) { }
+  virtual void skippedEntity(const string_type&) { }
 
   // Lexical Handler
-  virtual void startDTD(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void startDTD(const string_type&, const string_type&, const string_type&) { }
   virtual void endDTD() { }
-  virtual void startEntity(const stringT& name) { }
-  virtual void endEntity(const stringT& name) { }
+  virtual void startEntity(const string_type&) { }
+  virtual void endEntity(const string_type&) { }
   virtual void startCDATA() { }
   virtual void endCDATA() { }
-  virtual void comment(const stringT& text) { }
+  virtual void comment(const string_type&) { }
 
   // DTD Handler
-  virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
-  virtual void unparsedEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId, const stringT& notationName) { }
+  virtual void notationDecl(const string_type&, const string_type&, const string_type&) { }
+  virtual void unparsedEntityDecl(const string_type&, const string_type&, const string_type&, const string_type&) { }
 
   // Decl Handler
-  virtual void elementDecl(const stringT& name, const stringT& model) { }
-  virtual void attributeDecl(const stringT& elementName, const stringT& attributeName,
-                              const stringT& type, const stringT& valueDefault, const stringT& value) { }
-  virtual void internalEntityDecl(const stringT& name, const stringT& value) { }
-  virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void elementDecl(const string_type&, const string_type&) { }
+  virtual void attributeDecl(const string_type&, const string_type&,
+                              const string_type&, const string_type&, const string_type&) { }
+  virtual void internalEntityDecl(const string_type&, const string_type&) { }
+  virtual void externalEntityDecl(const string_type&, const string_type&, const string_type&) { }
 }; // class TextOnly
 
 } // namespace SAX
diff --git a/include/SAX/helpers/XMLFilterImpl.hpp b/include/SAX/helpers/XMLFilterImpl.hpp
index 0724132..dfbe060 100644
--- a/include/SAX/helpers/XMLFilterImpl.hpp
+++ b/include/SAX/helpers/XMLFilterImpl.hpp
@@ -211,6 +211,9 @@ public:
    */
   virtual void parse(InputSourceT& input)
   {
+    if(!parent_)
+      throw SAXException("No parent reader set");
+
     setupParse();
     parent_->parse(input);
   } // parse
-- 
2.43.0


From de7171a713c78a48a25e2954d7460fc9916b20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:58 +0000
Subject: [PATCH 53/53] fix: xslt rejects stylesheets it used to accept in
 error (a variable in a template's match stays allowed)

---
 include/XSLT/impl/handler/xslt_template_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_template_handler.hpp b/include/XSLT/impl/handler/xslt_template_handler.hpp
index 925a358..bc67981 100644
--- a/include/XSLT/impl/handler/xslt_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_template_handler.hpp
@@ -88,7 +88,7 @@ protected:
 			  priority,
         baseT::context().precedence());
 
-    return new Template<string_type, string_adaptor>(baseT::context().xpath_match_no_variables(match),
+    return new Template<string_type, string_adaptor>(baseT::context().xpath_match(match),
 			name,
 			mode,
 			priority,
-- 
2.43.0

