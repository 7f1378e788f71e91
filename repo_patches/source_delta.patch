From cceecdc43617d58181d8fb4d415d7801c37902e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 01/31] fix: Message copy assignment keeps the sender and drops
 freed lists, mismatched delete[], leaks on failed allocations

---
 src/message.cpp     | 242 ++++++++++++++++++--------------------------
 src/message.h       |   2 +
 src/stringutils.cpp |  11 ++
 src/stringutils.h   |   7 ++
 4 files changed, 119 insertions(+), 143 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..ba48a0c 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -2,9 +2,70 @@
 #include <cstddef>
 #include <iterator>
 #include <utility>
+#include "stringutils.h"
 
 using namespace jed_utils;
 
+namespace {
+template <typename T>
+void deleteArray(T **pArray, size_t pCount) {
+    if (pArray != nullptr) {
+        for (size_t i = 0; i < pCount; i++) {
+            delete pArray[i];
+        }
+        delete[] pArray;
+    }
+}
+
+// Owns a copied array of objects until it is released to a message
+template <typename T>
+class ArrayCopy {
+ public:
+    ArrayCopy(T **pSource, size_t pCount)
+        : mArray(pSource != nullptr && pCount > 0 ? new T*[pCount]() : nullptr), mCount(pCount) {
+        try {
+            for (size_t i = 0; mArray != nullptr && i < mCount; i++) {
+                mArray[i] = new T(*pSource[i]);
+            }
+        }
+        catch (...) {
+            deleteArray(mArray, mCount);
+            throw;
+        }
+    }
+    ~ArrayCopy() {
+        deleteArray(mArray, mCount);
+    }
+    ArrayCopy(const ArrayCopy &) = delete;
+    ArrayCopy &operator=(const ArrayCopy &) = delete;
+    T **release() {
+        T **array = mArray;
+        mArray = nullptr;
+        return array;
+    }
+
+ private:
+    T **mArray;
+    size_t mCount;
+};
+}  // namespace
+
+// The public constructors delegate to this one. The destructor then releases what
+// was already created if they fail.
+Message::Message(const MessageAddress &pFrom)
+    : mFrom(pFrom),
+      mTo(nullptr),
+      mToCount(0),
+      mCc(nullptr),
+      mCCCount(0),
+      mBcc(nullptr),
+      mBCCCount(0),
+      mSubject(nullptr),
+      mBody(nullptr),
+      mAttachments(nullptr),
+      mAttachmentCount(0) {
+}
+
 Message::Message(const MessageAddress &pFrom,
         const MessageAddress &pTo,
         const char *pSubject,
@@ -30,59 +91,38 @@ Message::Message(const MessageAddress &pFrom,
         size_t pBccCount,
         const Attachment pAttachments[],
         size_t pAttachmentsSize)
-    : mFrom(pFrom),
-      mTo(nullptr),
-      mToCount(pToCount),
-      mCc(nullptr),
-      mCCCount(pCcCount),
-      mBcc(nullptr),
-      mBCCCount(pBccCount),
-      mSubject(nullptr),
-      mBody(nullptr),
-      mAttachments(nullptr),
-      mAttachmentCount(pAttachmentsSize) {
-    if (pSubject == nullptr) {
-        mSubject = new char('\0');
-    } else {
-        size_t subject_len = strlen(pSubject);
-        mSubject = new char[subject_len + 1];
-        strncpy(mSubject, pSubject, subject_len);
-        mSubject[subject_len] = '\0';
-    }
-
-    if (pBody == nullptr) {
-        mBody = new char('\0');
-    } else {
-        size_t body_len = strlen(pBody);
-        mBody = new char[body_len + 1];
-        strncpy(mBody, pBody, body_len);
-        mBody[body_len] = '\0';
-    }
+    : Message(pFrom) {
+    mSubject = StringUtils::copyOf(pSubject == nullptr ? "" : pSubject).release();
+    mBody = StringUtils::copyOf(pBody == nullptr ? "" : pBody).release();
 
     if (pTo != nullptr) {
-        mTo = new MessageAddress*[mToCount];
-        for (unsigned int index = 0; index < mToCount; index++) {
+        mTo = new MessageAddress*[pToCount]();
+        mToCount = pToCount;
+        for (size_t index = 0; index < mToCount; index++) {
             mTo[index] = new MessageAddress(pTo[index]);
         }
     }
 
     if (pCc != nullptr) {
-        mCc = new MessageAddress*[mCCCount];
-        for (unsigned int index = 0; index < mCCCount; index++) {
+        mCc = new MessageAddress*[pCcCount]();
+        mCCCount = pCcCount;
+        for (size_t index = 0; index < mCCCount; index++) {
             mCc[index] = new MessageAddress(pCc[index]);
         }
     }
 
     if (pBcc != nullptr) {
-        mBcc = new MessageAddress*[mBCCCount];
-        for (unsigned int index = 0; index < mBCCCount; index++) {
+        mBcc = new MessageAddress*[pBccCount]();
+        mBCCCount = pBccCount;
+        for (size_t index = 0; index < mBCCCount; index++) {
             mBcc[index] = new MessageAddress(pBcc[index]);
         }
     }
 
     if (pAttachments != nullptr) {
-        mAttachments = new Attachment*[mAttachmentCount];
-        for (unsigned int index = 0; index < mAttachmentCount; index++) {
+        mAttachments = new Attachment*[pAttachmentsSize]();
+        mAttachmentCount = pAttachmentsSize;
+        for (size_t index = 0; index < mAttachmentCount; index++) {
             mAttachments[index] = new Attachment(pAttachments[index]);
         }
     }
@@ -129,128 +169,44 @@ Message::~Message() {
 
 // Copy constructor
 Message::Message(const Message &other)
-    : mFrom(other.mFrom),
-      mTo(nullptr),
-      mToCount(other.mToCount),
-      mCc(nullptr),
-      mCCCount(other.mCCCount),
-      mBcc(nullptr),
-      mBCCCount(other.mBCCCount),
-      mSubject(new char[strlen(other.mSubject) + 1]),
-      mBody(new char[strlen(other.mBody) + 1]),
-      mAttachments(nullptr),
-      mAttachmentCount(other.mAttachmentCount) {
-    size_t body_len = strlen(other.mBody);
-    strncpy(mBody, other.mBody, body_len);
-    mBody[body_len] = '\0';
-
-    size_t subject_len = strlen(other.mSubject);
-    strncpy(mSubject, other.mSubject, subject_len);
-    mSubject[subject_len] = '\0';
-
-    // mTo
-    if (other.mToCount > 0) {
-        mTo = new MessageAddress*[other.mToCount];
-        for (unsigned int i = 0; i < other.mToCount; i++) {
-            mTo[i] = new MessageAddress(*other.mTo[i]);
-        }
-    }
-
-    // mCc
-    if (other.mCCCount > 0) {
-        mCc = new MessageAddress*[other.mCCCount];
-        for (unsigned int i = 0; i < other.mCCCount; i++) {
-            mCc[i] = new MessageAddress(*other.mCc[i]);
-        }
-    }
-
-    // mBcc
-    if (other.mBCCCount > 0) {
-        mBcc = new MessageAddress*[other.mBCCCount];
-        for (unsigned int i = 0; i < other.mBCCCount; i++) {
-            mBcc[i] = new MessageAddress(*other.mBcc[i]);
-        }
-    }
-
-    // mAttachment
-    if (other.mAttachmentCount > 0) {
-        mAttachments = new Attachment*[other.mAttachmentCount];
-        for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-            mAttachments[i] = new Attachment(*other.mAttachments[i]);
-        }
-    }
+    : Message(other.mFrom) {
+    *this = other;
 }
 
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        // Copy everything first, a failure then leaves this message untouched
+        MessageAddress from(other.mFrom);
+        auto subject = StringUtils::copyOf(other.mSubject);
+        auto body = StringUtils::copyOf(other.mBody);
+        ArrayCopy<MessageAddress> to(other.mTo, other.mToCount);
+        ArrayCopy<MessageAddress> cc(other.mCc, other.mCCCount);
+        ArrayCopy<MessageAddress> bcc(other.mBcc, other.mBCCCount);
+        ArrayCopy<Attachment> attachments(other.mAttachments, other.mAttachmentCount);
+        // mFrom
+        mFrom = std::move(from);
         // mSubject
         delete[] mSubject;
-        size_t subject_len = strlen(other.mSubject);
-        mSubject = new char[subject_len + 1];
-        strncpy(mSubject, other.mSubject, subject_len);
-        mSubject[subject_len] = '\0';
+        mSubject = subject.release();
         // mBody
         delete[] mBody;
-        size_t body_len = strlen(other.mBody);
-        mBody = new char[body_len + 1];
-        strncpy(mBody, other.mBody, body_len);
-        mBody[body_len] = '\0';
+        mBody = body.release();
         // mTo and mToCount
-        if (mToCount > 0) {
-            for (unsigned int i = 0; i < mToCount; i++) {
-                delete mTo[i];
-            }
-            delete[] mTo;
-        }
-        if (other.mToCount > 0) {
-            mTo = new MessageAddress*[other.mToCount];
-            for (unsigned int i = 0; i < other.mToCount; i++) {
-                mTo[i] = new MessageAddress(*other.mTo[i]);
-            }
-        }
+        deleteArray(mTo, mToCount);
+        mTo = to.release();
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
-            for (unsigned int i = 0; i < mCCCount; i++) {
-                delete mCc[i];
-            }
-            delete[] mCc;
-        }
-        if (other.mCCCount > 0) {
-            mCc = new MessageAddress*[other.mCCCount];
-            for (unsigned int i = 0; i < other.mCCCount; i++) {
-                mCc[i] = new MessageAddress(*other.mCc[i]);
-            }
-        }
+        deleteArray(mCc, mCCCount);
+        mCc = cc.release();
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
-            for (unsigned int i = 0; i < mBCCCount; i++) {
-                delete mBcc[i];
-            }
-            delete[] mBcc;
-        }
-        if (other.mBCCCount > 0) {
-            mBcc = new MessageAddress*[other.mBCCCount];
-            for (unsigned int i = 0; i < other.mBCCCount; i++) {
-                mBcc[i] = new MessageAddress(*other.mBcc[i]);
-            }
-        }
+        deleteArray(mBcc, mBCCCount);
+        mBcc = bcc.release();
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
-            for (unsigned int i = 0; i < mAttachmentCount; i++) {
-                delete mAttachments[i];
-            }
-            delete[] mAttachments;
-        }
-        if (other.mAttachmentCount > 0) {
-            mAttachments = new Attachment*[other.mAttachmentCount];
-            for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-                mAttachments[i] = new Attachment(*other.mAttachments[i]);
-            }
-        }
+        deleteArray(mAttachments, mAttachmentCount);
+        mAttachments = attachments.release();
         mAttachmentCount = other.mAttachmentCount;
     }
     return *this;
@@ -318,7 +274,7 @@ Message& Message::operator=(Message &&other) noexcept {
         }
         // Copy the data pointer and its length from the
         // source object.
-        mFrom = other.mFrom;
+        mFrom = std::move(other.mFrom);
         mSubject = other.mSubject;
         mBody = other.mBody;
         mTo = other.mTo;
diff --git a/src/message.h b/src/message.h
index 67b8550..82489f0 100644
--- a/src/message.h
+++ b/src/message.h
@@ -120,6 +120,8 @@ class MESSAGE_API Message {
     size_t getAttachmentsCount() const;
 
  private:
+    explicit Message(const MessageAddress &pFrom);
+
     MessageAddress mFrom;
     MessageAddress **mTo;
     size_t mToCount;
diff --git a/src/stringutils.cpp b/src/stringutils.cpp
index cbb9b86..8b334fa 100644
--- a/src/stringutils.cpp
+++ b/src/stringutils.cpp
@@ -1,6 +1,7 @@
 #include "stringutils.h"
 #include <algorithm>
 #include <cctype>
+#include <cstring>
 #include <locale>
 
 using namespace jed_utils;
@@ -44,3 +45,13 @@ std::string StringUtils::toUpper(const std::string &pString) {
             [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
     return transformed_string;
 }
+
+std::unique_ptr<char[]> StringUtils::copyOf(const char *pString) {
+    if (pString == nullptr) {
+        return nullptr;
+    }
+    size_t length = strlen(pString);
+    std::unique_ptr<char[]> copy(new char[length + 1]);
+    memcpy(copy.get(), pString, length + 1);
+    return copy;
+}
diff --git a/src/stringutils.h b/src/stringutils.h
index 6e76974..24645b2 100644
--- a/src/stringutils.h
+++ b/src/stringutils.h
@@ -1,6 +1,7 @@
 #ifndef STRINGUTILS_H
 #define STRINGUTILS_H
 
+#include <memory>
 #include <string>
 
 #ifdef _WIN32
@@ -49,6 +50,12 @@ class STRINGUTILS_API StringUtils {
      *  @param pString The string that will be processed.
      */
     static std::string toUpper(const std::string &pString);
+
+    /**
+     *  @brief  Return a copy of a null terminated string. The result is null if the string is null.
+     *  @param pString The string that will be copied.
+     */
+    static std::unique_ptr<char[]> copyOf(const char *pString);
 };
 }  // namespace jed_utils
 
-- 
2.43.0


From adb100188ca1e616d8df8ad201ae1ea35c403c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 02/31] fix: value objects release or keep their strings when
 an allocation fails, Attachment::setContentId no longer leaks

---
 src/attachment.cpp     | 69 +++++++++++++++---------------------------
 src/credential.cpp     | 54 +++++++++++----------------------
 src/messageaddress.cpp | 41 +++++++++----------------
 3 files changed, 56 insertions(+), 108 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..1aff5d9 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -15,20 +15,12 @@ Attachment::Attachment(const char *pFilename, const char *pName, const char *pCo
         throw std::invalid_argument("filename");
     }
 
-    size_t filename_len = pFileNameLength;
-    mFilename = new char[filename_len+1];
-    strncpy(mFilename, pFilename, filename_len);
-    mFilename[filename_len] = '\0';
-
-    size_t name_len = strlen(pName);
-    mName = new char[name_len+1];
-    strncpy(mName, pName, name_len);
-    mName[name_len] = '\0';
-
-    size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len+1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    auto filename = StringUtils::copyOf(pFilename);
+    auto name = StringUtils::copyOf(pName);
+    auto contentId = StringUtils::copyOf(pContentId);
+    mFilename = filename.release();
+    mName = name.release();
+    mContentId = contentId.release();
 }
 
 Attachment::~Attachment() {
@@ -42,41 +34,29 @@ Attachment::~Attachment() {
 
 // Copy constructor
 Attachment::Attachment(const Attachment& other)
-    : mName(new char[strlen(other.mName) + 1]),
-      mFilename(new char[strlen(other.mFilename) + 1]),
-      mContentId(new char[strlen(other.mContentId) + 1]) {
-    size_t name_len = strlen(other.mName);
-    strncpy(mName, other.mName, name_len);
-    mName[name_len] = '\0';
-    size_t filename_len = strlen(other.mFilename);
-    strncpy(mFilename, other.mFilename, filename_len);
-    mFilename[filename_len] = '\0';
-    size_t contentid_len = strlen(other.mContentId);
-    strncpy(mContentId, other.mContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    : mName(nullptr),
+      mFilename(nullptr),
+      mContentId(nullptr) {
+    auto name = StringUtils::copyOf(other.mName);
+    auto filename = StringUtils::copyOf(other.mFilename);
+    auto contentId = StringUtils::copyOf(other.mContentId);
+    mName = name.release();
+    mFilename = filename.release();
+    mContentId = contentId.release();
 }
 
 // Assignment operator
 Attachment& Attachment::operator=(const Attachment& other) {
     if (this != &other) {
+        auto name = StringUtils::copyOf(other.mName);
+        auto filename = StringUtils::copyOf(other.mFilename);
+        auto contentId = StringUtils::copyOf(other.mContentId);
         delete[] mName;
         delete[] mFilename;
         delete[] mContentId;
-        // mName
-        size_t name_len = strlen(other.mName);
-        mName = new char[name_len + 1];
-        strncpy(mName, other.mName, name_len);
-        mName[name_len] = '\0';
-        // mFilename
-        size_t filename_len = strlen(other.mFilename);
-        mFilename = new char[filename_len + 1];
-        strncpy(mFilename, other.mFilename, filename_len);
-        mFilename[filename_len] = '\0';
-        // mContentId
-        size_t contentid_len = strlen(other.mContentId);
-        mContentId = new char[contentid_len + 1];
-        strncpy(mContentId, other.mContentId, contentid_len);
-        mContentId[contentid_len] = '\0';
+        mName = name.release();
+        mFilename = filename.release();
+        mContentId = contentId.release();
     }
     return *this;
 }
@@ -111,10 +91,9 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 }
 
 void Attachment::setContentId(const char * pContentId) {
-    size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    auto contentId = StringUtils::copyOf(pContentId);
+    delete[] mContentId;
+    mContentId = contentId.release();
 }
 
 const char *Attachment::getName() const {
diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..9421298 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -19,15 +19,10 @@ Credential::Credential(const char *pUsername, const char *pPassword)
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    std::strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
-
-    size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    std::strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    auto username = StringUtils::copyOf(pUsername);
+    auto password = StringUtils::copyOf(pPassword);
+    mUsername = username.release();
+    mPassword = password.release();
 }
 
 Credential::~Credential() {
@@ -39,16 +34,13 @@ Credential::~Credential() {
 
 // Copy constructor
 Credential::Credential(const Credential& other)
-    : mUsername(new char[strlen(other.mUsername) + 1]),
-      mPassword(new char[strlen(other.mPassword) + 1]),
+    : mUsername(nullptr),
+      mPassword(nullptr),
       mRecommendedAuthMethod{other.mRecommendedAuthMethod} {
-    size_t username_len = strlen(other.mUsername);
-    strncpy(mUsername, other.mUsername, username_len);
-    mUsername[username_len] = '\0';
-
-    size_t password_len = strlen(other.mPassword);
-    strncpy(mPassword, other.mPassword, password_len);
-    mPassword[password_len] = '\0';
+    auto username = StringUtils::copyOf(other.mUsername);
+    auto password = StringUtils::copyOf(other.mPassword);
+    mUsername = username.release();
+    mPassword = password.release();
 }
 
 Credential::Credential(const char *pUsername, const char *pPassword,
@@ -60,18 +52,12 @@ Credential::Credential(const char *pUsername, const char *pPassword,
 // Assignment operator
 Credential& Credential::operator=(const Credential& other) {
     if (this != &other) {
+        auto username = StringUtils::copyOf(other.mUsername);
+        auto password = StringUtils::copyOf(other.mPassword);
         delete[] mUsername;
         delete[] mPassword;
-        // mUsername
-        size_t username_len = strlen(other.mUsername);
-        mUsername = new char[username_len + 1];
-        strncpy(mUsername, other.mUsername, username_len);
-        mUsername[username_len] = '\0';
-        // mPassword
-        size_t password_len = strlen(other.mPassword);
-        mPassword = new char[password_len + 1];
-        strncpy(mPassword, other.mPassword, password_len);
-        mPassword[password_len] = '\0';
+        mUsername = username.release();
+        mPassword = password.release();
 
         mRecommendedAuthMethod = other.mRecommendedAuthMethod;
     }
@@ -127,11 +113,9 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
+    auto username = StringUtils::copyOf(pUsername);
     delete []mUsername;
-    size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    mUsername = username.release();
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +123,9 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
+    auto password = StringUtils::copyOf(pPassword);
     delete []mPassword;
-    size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    mPassword = password.release();
 }
 
 void Credential::setRecommendedAuthOption(
diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 091c292..91de178 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -19,15 +19,10 @@ MessageAddress::MessageAddress(const char *pEmailAddress, const char *pDisplayNa
         throw std::invalid_argument("pEmailAddress");
     }
 
-    size_t email_len = strlen(pEmailAddress);
-    mEmailAddress = new char[email_len+1];
-    strncpy(mEmailAddress, pEmailAddress, email_len);
-    mEmailAddress[email_len] = '\0';
-
-    size_t name_len = strlen(pDisplayName);
-    mDisplayName = new char[name_len+1];
-    strncpy(mDisplayName, pDisplayName, name_len);
-    mDisplayName[name_len] = '\0';
+    auto emailAddress = StringUtils::copyOf(pEmailAddress);
+    auto displayName = StringUtils::copyOf(pDisplayName);
+    mEmailAddress = emailAddress.release();
+    mDisplayName = displayName.release();
 }
 
 MessageAddress::~MessageAddress() {
@@ -37,31 +32,23 @@ MessageAddress::~MessageAddress() {
 
 // Copy constructor
 MessageAddress::MessageAddress(const MessageAddress& other)
-    : mEmailAddress(new char[strlen(other.mEmailAddress) + 1]),
-      mDisplayName(new char[strlen(other.mDisplayName) + 1]) {
-    size_t email_len = strlen(other.mEmailAddress);
-    strncpy(mEmailAddress, other.mEmailAddress, email_len);
-    mEmailAddress[email_len] = '\0';
-    size_t name_len = strlen(other.mDisplayName);
-    strncpy(mDisplayName, other.mDisplayName, name_len);
-    mDisplayName[name_len] = '\0';
+    : mEmailAddress(nullptr),
+      mDisplayName(nullptr) {
+    auto emailAddress = StringUtils::copyOf(other.mEmailAddress);
+    auto displayName = StringUtils::copyOf(other.mDisplayName);
+    mEmailAddress = emailAddress.release();
+    mDisplayName = displayName.release();
 }
 
 // Assignment operator
 MessageAddress& MessageAddress::operator=(const MessageAddress& other) {
     if (this != &other) {
+        auto emailAddress = StringUtils::copyOf(other.mEmailAddress);
+        auto displayName = StringUtils::copyOf(other.mDisplayName);
         delete[] mEmailAddress;
         delete[] mDisplayName;
-        // mEmailAddress
-        size_t email_len = strlen(other.mEmailAddress);
-        mEmailAddress = new char[email_len + 1];
-        strncpy(mEmailAddress, other.mEmailAddress, email_len);
-        mEmailAddress[email_len] = '\0';
-        // mDisplayName
-        size_t name_len = strlen(other.mDisplayName);
-        mDisplayName = new char[name_len + 1];
-        strncpy(mDisplayName, other.mDisplayName, name_len);
-        mDisplayName[name_len] = '\0';
+        mEmailAddress = emailAddress.release();
+        mDisplayName = displayName.release();
     }
     return *this;
 }
-- 
2.43.0


From 03992ff55d5009a62dcadf006783573e903e50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 03/31] fix: Attachment::getBase64EncodedFile reports
 unreadable, truncated and huge files instead of inventing bytes

---
 src/attachment.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 1aff5d9..b1493cf 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -1,9 +1,9 @@
 #include "attachment.h"
-#include <cstdint>
+#include <algorithm>
 #include <ios>
 #include <iostream>
-#include <limits>
 #include <string>
+#include <vector>
 #include "stringutils.h"
 
 using namespace jed_utils;
@@ -112,22 +112,26 @@ const char *Attachment::getBase64EncodedFile() const {
     // Open the file
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
-        std::string contents;
         in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
+        const auto size = static_cast<std::streamoff>(in.tellg());
         in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
-            in.close();
+        std::string contents;
+        const std::streamoff BLOCK_MAXLENGTH = 65536;
+        std::vector<char> block(static_cast<size_t>(BLOCK_MAXLENGTH));
+        std::streamoff remaining = size;
+        while (in && remaining > 0) {
+            in.read(block.data(), static_cast<std::streamsize>(std::min(remaining, BLOCK_MAXLENGTH)));
+            contents.append(block.data(), static_cast<size_t>(in.gcount()));
+            remaining -= in.gcount();
+        }
+        // The stream is not good anymore after a read error or a premature end of the file
+        if (in && size >= 0) {
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
-            auto *base64_file = new char[base64_result.length() + 1];
-            strncpy(base64_file, base64_result.c_str(), base64_result.length() + 1);
-            return base64_file;
+            return StringUtils::copyOf(base64_result.c_str()).release();
         }
-        in.close();
     }
 
-    std::cerr << "Could not open file " << mFilename << std::endl;
+    std::cerr << "Could not read file " << mFilename << std::endl;
     return nullptr;
 }
 
-- 
2.43.0


From 21b2a0984bd4b6d013b522682214f2028619f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 04/31] fix: C++ clients own their credentials safely and
 honour the preferred authentication method, no leaks in error message and
 attachment helpers

---
 src/cpp/attachment.cpp                    |  5 +++--
 src/cpp/forcedsecuresmtpclient.cpp        | 11 ++++++-----
 src/cpp/forcedsecuresmtpclient.hpp        |  3 ++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 11 ++++++-----
 src/cpp/opportunisticsecuresmtpclient.hpp |  3 ++-
 src/cpp/smtpclient.cpp                    | 14 ++++++++------
 src/cpp/smtpclient.hpp                    |  3 ++-
 7 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..e7deb72 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -1,4 +1,5 @@
 #include "attachment.hpp"
+#include <memory>
 
 using namespace jed_utils::cpp;
 
@@ -23,8 +24,8 @@ std::string Attachment::getContentId() const {
 }
 
 std::string Attachment::getBase64EncodedFile() const {
-    const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    const std::unique_ptr<const char[]> retval(jed_utils::Attachment::getBase64EncodedFile());
+    return retval == nullptr ? "" : retval.get();
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..82927f4 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -52,11 +52,11 @@ void ForcedSecureSMTPClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
+    auto credential = std::make_shared<const Credential>(pCredential);
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = credential;
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
@@ -68,13 +68,14 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMessage(jed_utils::SMTPClientBase::getErrorMessage(errorCode));
+    return errorMessage.get();
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..bb5bd8f 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..690f60c 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -52,11 +52,11 @@ void OpportunisticSecureSMTPClient::setCommandTimeout(unsigned int pTimeOutInSec
 }
 
 void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential) {
+    auto credential = std::make_shared<const Credential>(pCredential);
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = credential;
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
@@ -68,13 +68,14 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMessage(jed_utils::SMTPClientBase::getErrorMessage(errorCode));
+    return errorMessage.get();
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..d52648b 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..fd62cc5 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -48,10 +48,11 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
+    auto credential = std::make_shared<const Credential>(pCredential);
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
+    mCredential = credential;
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
@@ -59,13 +60,14 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMessage(jed_utils::SMTPClientBase::getErrorMessage(errorCode));
+    return errorMessage.get();
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..8ed4abe 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,7 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From 805ce6f679c33627823d9947e5f4568f43dfdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 05/31] fix: copied, assigned and destroyed clients close their
 session and release what they own, QUIT failure in batch mode no longer
 recurses

---
 src/securesmtpclientbase.cpp |  22 +++---
 src/smtpclient.cpp           |  16 +++--
 src/smtpclientbase.cpp       | 129 ++++++++++++++---------------------
 src/smtpclientbase.h         |   4 +-
 4 files changed, 80 insertions(+), 91 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..49677fa 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,6 +1,7 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <new>
 #include <string>
 #include <utility>
 #include "serveroptionsanalyzer.h"
@@ -51,9 +52,6 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
         SMTPClientBase::operator=(other);
-        mBIO = nullptr;
-        mCTX = nullptr;
-        mSSL = nullptr;
         mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
     }
     return *this;
@@ -77,6 +75,8 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // Closes the current session
+        SMTPClientBase::operator=(std::move(other));
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
@@ -88,7 +88,6 @@ SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& oth
         other.mCTX = nullptr;
         other.mSSL = nullptr;
         other.mAcceptSelfSignedCert = false;
-        SMTPClientBase::operator=(std::move(other));
     }
     return *this;
 }
@@ -102,10 +101,17 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    if (getBatchMode() && mIsConnected) {
-        sendQuitCommand();
-    }
+    const bool sendQuit = getBatchMode() && mIsConnected;
+    // Not connected anymore, whatever happens to the QUIT command
     mIsConnected = false;
+    if (sendQuit) {
+        try {
+            sendQuitCommand();
+        }
+        catch (const std::bad_alloc &) {
+            // The connection is closed without QUIT
+        }
+    }
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
     }
@@ -115,7 +121,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mBIO = nullptr;
     int socketFileDescriptor {getSocketFileDescriptor() };
-    if (socketFileDescriptor != 0) {
+    if (socketFileDescriptor != -1) {
 #ifdef _WIN32
         shutdown(socketFileDescriptor, SD_BOTH);
         closesocket(socketFileDescriptor);
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..2f043fe 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -9,6 +9,7 @@
     #include <sys/socket.h>
     #include <unistd.h>
 #endif
+#include <new>
 #include <sstream>
 #include <vector>
 #include <utility>
@@ -45,12 +46,19 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    if (getBatchMode() && mIsConnected) {
-        sendQuitCommand();
-    }
+    const bool sendQuit = getBatchMode() && mIsConnected;
+    // Not connected anymore, whatever happens to the QUIT command
     mIsConnected = false;
+    if (sendQuit) {
+        try {
+            sendQuitCommand();
+        }
+        catch (const std::bad_alloc &) {
+            // The connection is closed without QUIT
+        }
+    }
     int socket { getSocketFileDescriptor() };
-    if (socket != 0) {
+    if (socket != -1) {
 #ifdef _WIN32
         shutdown(socket, SD_BOTH);
         closesocket(socket);
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..42e0c93 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -4,6 +4,7 @@
 #include <cstddef>
 #include <cstring>
 #include <limits>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -78,80 +79,52 @@ SMTPClientBase::~SMTPClientBase() {
 
 // Copy constructor
 SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
-    : mIsConnected(false),
-      mServerName(new char[strlen(other.mServerName) + 1]),
-      mPort(other.mPort),
-      mBatchMode(other.mBatchMode),
-      mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
-      mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
-      mCommandTimeOut(other.mCommandTimeOut),
-      mLastSocketErrNo(other.mLastSocketErrNo),
-      mAuthOptions(other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr),
-      mCredential(other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr),
-      mSock(0),
-      mKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands),
-      sendCommandPtr(&SMTPClientBase::sendCommand),
-      sendCommandWithFeedbackPtr(&SMTPClientBase::sendCommandWithFeedback) {
-    size_t server_name_len = strlen(other.mServerName);
-    strncpy(mServerName, other.mServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
-    if (mCommunicationLog != nullptr) {
-        size_t communication_log_len = strlen(other.mCommunicationLog);
-        strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
-        mCommunicationLog[communication_log_len] = '\0';
-    }
-
-    if (mLastServerResponse != nullptr) {
-        size_t last_server_response_len = strlen(other.mLastServerResponse);
-        strncpy(mLastServerResponse, other.mLastServerResponse, last_server_response_len);
-        mLastServerResponse[last_server_response_len] = '\0';
-    }
-    setKeepUsingBaseSendCommands(mKeepUsingBaseSendCommands);
+    : SMTPClientBase(other.mServerName, other.mPort) {
+    copySettings(other);
 }
 
 // Assignment operator
 SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
     if (this != &other) {
-        // mServerName
-        delete[] mServerName;
-        size_t server_name_len = strlen(other.mServerName);
-        mServerName = new char[server_name_len + 1];
-        strncpy(mServerName, other.mServerName, server_name_len);
-        mServerName[server_name_len] = '\0';
-        // mPort
-        mPort = other.mPort;
-        // mBatchMode
-        mBatchMode = other.mBatchMode;
-        // mCommunicationLog
-        mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
-        if (mCommunicationLog != nullptr) {
-            size_t communication_log_len = strlen(other.mCommunicationLog);
-            strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
-            mCommunicationLog[communication_log_len] = '\0';
-        }
-        mCommunicationLogSize = other.mCommunicationLogSize;
-        // mLastServerResponse
-        mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
-        if (mLastServerResponse != nullptr) {
-            size_t last_server_response_len = strlen(other.mLastServerResponse);
-            strncpy(mLastServerResponse, other.mLastServerResponse, last_server_response_len);
-            mLastServerResponse[last_server_response_len] = '\0';
-        }
-        mCommandTimeOut = other.mCommandTimeOut;
-        mLastSocketErrNo = other.mLastSocketErrNo;
-
-        delete mAuthOptions;
-        mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
-        // mCredential
-        mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
-        mIsConnected = false;
-        mSock = 0;
-        setKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands);
+        // Close the current session, the settings it was made with are replaced
+        cleanup();
+        copySettings(other);
     }
     return *this;
 }
 
+void SMTPClientBase::copySettings(const SMTPClientBase& other) {
+    // Copy everything first, a failure then leaves the settings untouched
+    auto serverName = StringUtils::copyOf(other.mServerName);
+    auto communicationLog = StringUtils::copyOf(other.mCommunicationLog);
+    auto lastServerResponse = StringUtils::copyOf(other.mLastServerResponse);
+    std::unique_ptr<ServerAuthOptions> authOptions(other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr);
+    std::unique_ptr<Credential> credential(other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr);
+    // mServerName
+    delete[] mServerName;
+    mServerName = serverName.release();
+    // mPort
+    mPort = other.mPort;
+    // mBatchMode
+    mBatchMode = other.mBatchMode;
+    // mCommunicationLog
+    delete[] mCommunicationLog;
+    mCommunicationLog = communicationLog.release();
+    mCommunicationLogSize = mCommunicationLog != nullptr ? strlen(mCommunicationLog) + 1 : 0;
+    // mLastServerResponse
+    delete[] mLastServerResponse;
+    mLastServerResponse = lastServerResponse.release();
+    mCommandTimeOut = other.mCommandTimeOut;
+    mLastSocketErrNo = other.mLastSocketErrNo;
+    // mAuthOptions
+    delete mAuthOptions;
+    mAuthOptions = authOptions.release();
+    // mCredential
+    delete mCredential;
+    mCredential = credential.release();
+    setKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands);
+}
+
 // Move constructor
 SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
     : mIsConnected(other.mIsConnected),
@@ -180,7 +153,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
     other.mAuthOptions = nullptr;
     other.mCredential = nullptr;
     other.mIsConnected = false;
-    other.mSock = 0;
+    other.mSock = -1;
     other.mKeepUsingBaseSendCommands = false;
     setKeepUsingBaseSendCommands(mKeepUsingBaseSendCommands);
 }
@@ -188,6 +161,8 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
 // Move assignement operator
 SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // Close the current session before taking over the one of the other client
+        cleanup();
         delete[] mServerName;
         delete[] mCommunicationLog;
         delete[] mLastServerResponse;
@@ -221,7 +196,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         other.mAuthOptions = nullptr;
         other.mCredential = nullptr;
         other.mIsConnected = false;
-        other.mSock = 0;
+        other.mSock = -1;
         other.mKeepUsingBaseSendCommands = false;
     }
     return *this;
@@ -260,11 +235,9 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
+    auto serverName = StringUtils::copyOf(pServerName);
     delete []mServerName;
-    size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    mServerName = serverName.release();
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
@@ -276,8 +249,9 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    std::unique_ptr<Credential> credential(new Credential(pCredential));
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = credential.release();
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
@@ -296,7 +270,7 @@ int SMTPClientBase::getSocketFileDescriptor() const {
 }
 
 void SMTPClientBase::clearSocketFileDescriptor() {
-    mSock = 0;
+    mSock = -1;
 }
 
 const char *SMTPClientBase::getLastServerResponse() const {
@@ -373,8 +347,9 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
 
 
 int SMTPClientBase::initializeSession() {
+    std::unique_ptr<char[]> communicationLog(new char[INITIAL_COMM_LOG_LENGTH]);
     delete[] mCommunicationLog;
-    mCommunicationLog = new char[INITIAL_COMM_LOG_LENGTH];
+    mCommunicationLog = communicationLog.release();
     mCommunicationLogSize = INITIAL_COMM_LOG_LENGTH;
     mCommunicationLog[0] = '\0';
 
@@ -750,11 +725,9 @@ void SMTPClientBase::crossPlatformSleep(unsigned int seconds) {
 }
 
 void SMTPClientBase::setLastServerResponse(const char *pResponse) {
+    auto response = StringUtils::copyOf(pResponse);
     delete[] mLastServerResponse;
-    size_t response_len = strlen(pResponse);
-    mLastServerResponse = new char[response_len + 1];
-    strncpy(mLastServerResponse, pResponse, response_len);
-    mLastServerResponse[response_len] = '\0';
+    mLastServerResponse = response.release();
 }
 
 int SMTPClientBase::authenticateClient() {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 80f420e..d6cbfec 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -204,6 +204,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
 
  private:
+    void copySettings(const SMTPClientBase& other);
+
     char *mServerName;
     unsigned int mPort;
     bool mBatchMode;
@@ -214,7 +216,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int mLastSocketErrNo;
     ServerAuthOptions *mAuthOptions;
     Credential *mCredential;
-    int mSock = 0;
+    int mSock = -1;
     #ifdef _WIN32
     bool mWSAStarted = false;
     #endif
-- 
2.43.0


From b0a80dab08eb86d221a1021e86e3ad70f3c9825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 06/31] fix: replies are received completely, sends and TLS
 handshakes survive partial transfers, and every exchange is bounded by the
 command timeout

---
 src/forcedsecuresmtpclient.cpp |  21 ----
 src/forcedsecuresmtpclient.h   |   1 -
 src/securesmtpclientbase.cpp   | 158 +++++++++++++++++++---------
 src/securesmtpclientbase.h     |   4 +
 src/smtpclientbase.cpp         | 186 +++++++++++++++++++++------------
 src/smtpclientbase.h           |   9 ++
 6 files changed, 245 insertions(+), 134 deletions(-)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..ff767a8 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -77,24 +77,3 @@ int ForcedSecureSMTPClient::establishConnectionWithServer() {
     }
     return 0;
 }
-
-int ForcedSecureSMTPClient::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
-    }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
-}
-
diff --git a/src/forcedsecuresmtpclient.h b/src/forcedsecuresmtpclient.h
index 7b8b9bc..65de197 100644
--- a/src/forcedsecuresmtpclient.h
+++ b/src/forcedsecuresmtpclient.h
@@ -48,7 +48,6 @@ class FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : public SecureSMTPClien
 
  protected:
     int establishConnectionWithServer() override;
-    int checkServerGreetings() override;
 };
 }  // namespace jed_utils
 
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 49677fa..7b39db8 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,10 +1,12 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <algorithm>
+#include <cstring>
+#include <limits>
 #include <new>
 #include <string>
 #include <utility>
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "socketerrors.h"
 #include "sslerrors.h"
@@ -21,12 +23,50 @@
     #include <netdb.h>
     #include <netinet/in.h>
     #include <openssl/bio.h> /* BasicInput/Output streams */
+    #include <signal.h>
     #include <unistd.h>
 #endif
 
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+// OpenSSL writes to the socket without the possibility to suppress the SIGPIPE
+// signal of a closed connection. This class does it during its lifetime.
+class SigPipeBlocker {
+ public:
+    SigPipeBlocker(const SigPipeBlocker &) = delete;
+    SigPipeBlocker &operator=(const SigPipeBlocker &) = delete;
+#ifdef _WIN32
+    SigPipeBlocker() {}
+#else
+    SigPipeBlocker()
+        : mWasPending(isPending()) {
+        sigemptyset(&mSigPipe);
+        sigaddset(&mSigPipe, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &mSigPipe, &mPreviousMask);
+    }
+
+    ~SigPipeBlocker() {
+        if (!mWasPending && isPending()) {
+            int signalNumber { 0 };
+            sigwait(&mSigPipe, &signalNumber);
+        }
+        pthread_sigmask(SIG_SETMASK, &mPreviousMask, nullptr);
+    }
+
+ private:
+    static bool isPending() {
+        sigset_t pending;
+        return sigpending(&pending) == 0 && sigismember(&pending, SIGPIPE) == 1;
+    }
+    bool mWasPending;
+    sigset_t mSigPipe;
+    sigset_t mPreviousMask;
+#endif
+};
+}  // namespace
+
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
     : SMTPClientBase(pServerName, pPort),
     mBIO(nullptr),
@@ -117,6 +157,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mCTX = nullptr;
     if (mBIO != nullptr) {
+        const SigPipeBlocker sigPipeBlocker;
         BIO_free_all(mBIO);
     }
     mBIO = nullptr;
@@ -161,6 +202,8 @@ void SecureSMTPClientBase::initializeSSLContext() {
 
 int SecureSMTPClientBase::startTLSNegotiation() {
     addCommunicationLogItem("<Start TLS negotiation>");
+    // What was received before the negotiation is not protected by it
+    clearReceivedBytes();
     initializeSSLContext();
     if (mCTX == nullptr) {
         return SSL_CLIENT_STARTTLS_INITSSLCTX_ERROR;
@@ -172,13 +215,14 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name = getServerName() + ":"s + std::to_string(getServerPort());
     BIO_get_ssl(mBIO, &mSSL); /* session */
-    SSL_set_fd(mSSL, getSocketFileDescriptor());
-    SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    if (SSL_set_fd(mSSL, getSocketFileDescriptor()) != 1) {
+        cleanup();
+        return SSL_CLIENT_STARTTLS_BIONEWSSLCONNECT_ERROR;
+    }
+    SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY | SSL_MODE_ENABLE_PARTIAL_WRITE); /* robustness */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
@@ -215,18 +259,25 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Try to connect */
-    if (BIO_do_connect(mBIO) <= 0) {
-        cleanup();
-        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
+    const SigPipeBlocker sigPipeBlocker;
+    const auto deadline = getCommandDeadline();
+    ERR_clear_error();
+    while (BIO_do_connect(mBIO) <= 0) {
+        if (!canRetryTLSOperation(deadline)) {
+            cleanup();
+            return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
+        }
+        ERR_clear_error();
     }
 
     /* Try to do the handshake */
     addCommunicationLogItem("<Negotiate a TLS session>", "c & s");
-    if (BIO_do_handshake(mBIO) <= 0) {
-        cleanup();
-        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        return SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR;
+    while (BIO_do_handshake(mBIO) <= 0) {
+        if (!canRetryTLSOperation(deadline)) {
+            cleanup();
+            return SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR;
+        }
+        ERR_clear_error();
     }
 
     addCommunicationLogItem("<Check result of negotiation>", "c & s");
@@ -275,27 +326,28 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
         return tls_command_return_code;
     }
     std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SSL_CLIENT_INITSECURECLIENT_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
     return EHLO_SUCCESS_CODE;
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
-        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        cleanup();
-        return pErrorCode;
+    if (mBIO == nullptr) {
+        return sendRawCommand(pCommand, pErrorCode);
+    }
+    const SigPipeBlocker sigPipeBlocker;
+    size_t remaining = strlen(pCommand);
+    while (remaining > 0) {
+        ERR_clear_error();
+        int bytesSent = BIO_write(mBIO, pCommand, static_cast<int>((std::min<size_t>)(remaining, (std::numeric_limits<int>::max)())));
+        if (bytesSent > 0) {
+            pCommand += bytesSent;
+            remaining -= static_cast<size_t>(bytesSent);
+        } else if (!canRetryTLSOperation(getCommandDeadline())) {
+            mIsConnected = false;
+            cleanup();
+            return pErrorCode;
+        }
     }
     return 0;
 }
@@ -305,9 +357,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
-        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        cleanup();
+    if (sendCommand(pCommand, pErrorCode) != 0) {
         return pErrorCode;
     }
 
@@ -316,23 +366,37 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
         return serverReplyCode;
     }
 
+    mIsConnected = false;
     cleanup();
     return pTimeoutCode;
 }
 
 int SecureSMTPClientBase::getServerReply() {
-    unsigned int waitTime {0};
-    int bytes_received {0};
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        setLastServerResponse(outbuf);
-        addCommunicationLogItem(outbuf, "s");
-        return extractReturnCode(outbuf);
-    }
-    return -1;
+    return getRawCommandReply();
+}
+
+int SecureSMTPClientBase::receiveBytes(char *pBuffer, int pLength, const std::chrono::steady_clock::time_point &pDeadline) {
+    // Check if we are in the TLS mode of before it
+    if (mBIO == nullptr) {
+        return SMTPClientBase::receiveBytes(pBuffer, pLength, pDeadline);
+    }
+    const SigPipeBlocker sigPipeBlocker;
+    while (true) {
+        ERR_clear_error();
+        int bytesReceived = BIO_read(mBIO, pBuffer, pLength);
+        if (bytesReceived > 0) {
+            return bytesReceived;
+        }
+        if (!canRetryTLSOperation(pDeadline)) {
+            return -1;
+        }
+    }
+}
+
+bool SecureSMTPClientBase::canRetryTLSOperation(const std::chrono::steady_clock::time_point &pDeadline) {
+    if (!BIO_should_retry(mBIO)) {
+        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
+        return false;
+    }
+    return waitForSocket(BIO_should_write(mBIO) != 0, pDeadline);
 }
diff --git a/src/securesmtpclientbase.h b/src/securesmtpclientbase.h
index 60e9321..e7726b4 100644
--- a/src/securesmtpclientbase.h
+++ b/src/securesmtpclientbase.h
@@ -2,6 +2,7 @@
 #define SECURESMTPCLIENTBASE_H
 
 #include <openssl/ssl.h>
+#include <chrono>
 #include "smtpclientbase.h"
 
 #ifdef _WIN32
@@ -68,8 +69,11 @@ class SECURESMTPCLIENTBASE_API SecureSMTPClientBase : public SMTPClientBase {
     int sendCommand(const char *pCommand, int pErrorCode) override;
     int sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) override;
     int getServerReply() override;
+    int receiveBytes(char *pBuffer, int pLength, const std::chrono::steady_clock::time_point &pDeadline) override;
 
  private:
+    bool canRetryTLSOperation(const std::chrono::steady_clock::time_point &pDeadline);
+
     // Attributes used to communicate with the server
     BIO *mBIO;
     SSL_CTX *mCTX;
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 42e0c93..c522a41 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -15,7 +15,6 @@
 #include "message.h"
 #include "messageaddress.h"
 #include "serverauthoptions.h"
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "smtpserverstatuscodes.h"
 #include "socketerrors.h"
@@ -32,6 +31,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -139,6 +139,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
       mAuthOptions(other.mAuthOptions),
       mCredential(other.mCredential),
       mSock(other.mSock),
+      mReceivedBytes(std::move(other.mReceivedBytes)),
       mKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands),
       sendCommandPtr(&SMTPClientBase::sendCommand),
       sendCommandWithFeedbackPtr(&SMTPClientBase::sendCommandWithFeedback) {
@@ -181,6 +182,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         mCredential = other.mCredential;
         mIsConnected = other.mIsConnected;
         mSock = other.mSock;
+        mReceivedBytes = std::move(other.mReceivedBytes);
         mKeepUsingBaseSendCommands = other.mKeepUsingBaseSendCommands;
         setKeepUsingBaseSendCommands(mKeepUsingBaseSendCommands);
         // Release the data pointer from the source object so that
@@ -352,6 +354,7 @@ int SMTPClientBase::initializeSession() {
     mCommunicationLog = communicationLog.release();
     mCommunicationLogSize = INITIAL_COMM_LOG_LENGTH;
     mCommunicationLog[0] = '\0';
+    clearReceivedBytes();
 
 #ifdef _WIN32
     return initializeSessionWinSock();
@@ -407,7 +410,7 @@ int SMTPClientBase::initializeSessionWinSock() {
         doWSACleanup();
         return SOCKET_INIT_SESSION_CONNECT_ERROR;
     }
-    return 0;
+    return setSocketToNonBlockingWinSock();
 }
 
 int SMTPClientBase::setSocketToNonBlockingWinSock() {
@@ -539,8 +542,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
-    // Set to blocking mode again...
-    return setSocketToBlockingPOSIX();
+    return 0;
 }
 
 int SMTPClientBase::setSocketToNonBlockingPOSIX() {
@@ -603,89 +605,142 @@ int SMTPClientBase::sendServerIdentification() {
         return command_return_code;
     }
     std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SOCKET_INIT_CLIENT_SEND_EHLO_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
     return EHLO_SUCCESS_CODE;
 }
 
 int SMTPClientBase::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
-            && waitTime < mCommandTimeOut) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < mCommandTimeOut) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    int status_code = getRawCommandReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    }
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #ifdef _WIN32
-    size_t pCommandSize = strlen(pCommand);
-    if (static_cast<intmax_t>(pCommandSize) > (std::numeric_limits<int>::max)()) {
-        return pErrorCode;
-    }
-    int commandSize = static_cast<int>(pCommandSize);
+    const int sendFlags = 0;
+#elif defined(MSG_NOSIGNAL)
+    const int sendFlags = MSG_NOSIGNAL;
 #else
-    size_t commandSize = strlen(pCommand);
+    const int sendFlags = 0;
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
+    size_t remaining = strlen(pCommand);
+    while (remaining > 0) {
+        const int length = static_cast<int>((std::min<size_t>)(remaining, (std::numeric_limits<int>::max)()));
+        int bytesSent = static_cast<int>(send(mSock, pCommand, length, sendFlags));
+        if (bytesSent >= 0) {
+            pCommand += bytesSent;
+            remaining -= static_cast<size_t>(bytesSent);
+        } else if (!canRetrySocketOperation() || !waitForSocket(true, getCommandDeadline())) {
+            mIsConnected = false;
+            cleanup();
+            return pErrorCode;
+        }
     }
     return 0;
 }
 
 int SMTPClientBase::getRawCommandReply() {
     std::string fullResponse;
-    bool receivedAtLeastOnce = false;
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime {0};
-    setSocketToNonBlocking();
-
-    do {
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
-        if (bytes_received > 0) {
-            receivedAtLeastOnce = true;
-            outbuf[bytes_received] = '\0';  // Null-terminate the received data
-            fullResponse += outbuf;
-        } else {
-            if (bytes_received == -1 && receivedAtLeastOnce) {
-                break;
+    if (!receiveFullReply(fullResponse)) {
+        return -1;
+    }
+    setLastServerResponse(fullResponse.c_str());
+    addCommunicationLogItem(fullResponse.c_str(), "s");
+    return extractReturnCode(fullResponse.c_str());
+}
+
+bool SMTPClientBase::receiveFullReply(std::string &pReply) {
+    const auto deadline = getCommandDeadline();
+    char buffer[SERVERRESPONSE_BUFFER_LENGTH];
+    size_t lineStart { 0 };
+    while (true) {
+        // A reply ends with the first line that has no hyphen after its code
+        size_t lineEnd { 0 };
+        while ((lineEnd = mReceivedBytes.find('\n', lineStart)) != std::string::npos) {
+            const bool isLastLine = lineEnd - lineStart < 4 || mReceivedBytes[lineStart + 3] != '-';
+            lineStart = lineEnd + 1;
+            if (isLastLine) {
+                pReply = mReceivedBytes.substr(0, lineStart);
+                mReceivedBytes.erase(0, lineStart);
+                return true;
             }
-            crossPlatformSleep(1);
-            waitTime += 1;
         }
-    } while (waitTime < mCommandTimeOut);
-    setSocketToBlocking();
-    if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
-        setLastServerResponse(fullResponse.c_str());
-        addCommunicationLogItem(fullResponse.c_str(), "s");
-        return extractReturnCode(fullResponse.c_str());
+        if (std::chrono::steady_clock::now() > deadline) {
+            return false;
+        }
+        int bytesReceived = receiveBytes(buffer, SERVERRESPONSE_BUFFER_LENGTH, deadline);
+        if (bytesReceived <= 0) {
+            return false;
+        }
+        mReceivedBytes.append(buffer, static_cast<size_t>(bytesReceived));
+    }
+}
+
+int SMTPClientBase::receiveBytes(char *pBuffer, int pLength, const std::chrono::steady_clock::time_point &pDeadline) {
+    while (true) {
+        int bytesReceived = static_cast<int>(recv(mSock, pBuffer, static_cast<size_t>(pLength), 0));
+        if (bytesReceived >= 0) {
+            return bytesReceived;
+        }
+        if (!canRetrySocketOperation() || !waitForSocket(false, pDeadline)) {
+            return -1;
+        }
+    }
+}
+
+void SMTPClientBase::clearReceivedBytes() {
+    mReceivedBytes.clear();
+}
+
+std::chrono::steady_clock::time_point SMTPClientBase::getCommandDeadline() const {
+    return std::chrono::steady_clock::now() + std::chrono::seconds(mCommandTimeOut);
+}
+
+bool SMTPClientBase::canRetrySocketOperation() {
+#ifdef _WIN32
+    const int socketError = WSAGetLastError();
+    const bool canRetry = socketError == WSAEWOULDBLOCK || socketError == WSAEINTR;
+#else
+    const int socketError = errno;
+    const bool canRetry = socketError == EAGAIN || socketError == EINTR;
+#endif
+    if (!canRetry) {
+        setLastSocketErrNo(socketError);
+    }
+    return canRetry;
+}
+
+bool SMTPClientBase::waitForSocket(bool pForWriting, const std::chrono::steady_clock::time_point &pDeadline) {
+    while (true) {
+        const auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(pDeadline - std::chrono::steady_clock::now()).count();
+        if (remaining < 0) {
+            return false;
+        }
+        const int pollTimeout = static_cast<int>((std::min<std::chrono::milliseconds::rep>)(remaining + 1, (std::numeric_limits<int>::max)()));
+#ifdef _WIN32
+        WSAPOLLFD descriptor {};
+        descriptor.fd = static_cast<SOCKET>(mSock);
+        descriptor.events = static_cast<SHORT>(pForWriting ? POLLOUT : POLLIN);
+        int result = WSAPoll(&descriptor, 1, pollTimeout);
+#else
+        struct pollfd descriptor {};
+        descriptor.fd = mSock;
+        descriptor.events = static_cast<int16_t>(pForWriting ? POLLOUT : POLLIN);
+        int result = poll(&descriptor, 1, pollTimeout);
+#endif
+        if (result > 0) {
+            return true;
+        }
+        if (result < 0 && !canRetrySocketOperation()) {
+            return false;
+        }
     }
-    return -1;
 }
 
 int SMTPClientBase::getServerReply() {
@@ -702,6 +757,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode, int pTi
         return serverReplyCode;
     }
 
+    mIsConnected = false;
     cleanup();
     return pTimeoutCode;
 }
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index d6cbfec..8c09b76 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -1,6 +1,7 @@
 #ifndef SMTPCLIENTBASE_H
 #define SMTPCLIENTBASE_H
 
+#include <chrono>
 #include <string>
 #include <vector>
 #include "attachment.h"
@@ -180,6 +181,11 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int sendRawCommand(const char *pCommand, int pErrorCode);
     int sendRawCommand(const char *pCommand, int pErrorCode, int pTimeoutCode);
     int getRawCommandReply();
+    virtual int receiveBytes(char *pBuffer, int pLength, const std::chrono::steady_clock::time_point &pDeadline);
+    void clearReceivedBytes();
+    std::chrono::steady_clock::time_point getCommandDeadline() const;
+    bool canRetrySocketOperation();
+    bool waitForSocket(bool pForWriting, const std::chrono::steady_clock::time_point &pDeadline);
     virtual int sendCommand(const char *pCommand, int pErrorCode) = 0;
     virtual int sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) = 0;
     virtual int getServerReply() = 0;
@@ -205,6 +211,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
 
  private:
     void copySettings(const SMTPClientBase& other);
+    bool receiveFullReply(std::string &pReply);
 
     char *mServerName;
     unsigned int mPort;
@@ -217,6 +224,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     ServerAuthOptions *mAuthOptions;
     Credential *mCredential;
     int mSock = -1;
+    // The bytes received from the server that are not part of a processed reply yet
+    std::string mReceivedBytes;
     #ifdef _WIN32
     bool mWSAStarted = false;
     #endif
-- 
2.43.0


From efeed283bba82047a144b6cc56fa4d942a496fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 07/31] fix: only three digits are a reply code

---
 src/smtpclientbase.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c522a41..9111f29 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1095,16 +1095,15 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
 }
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
-    if (pOutput != nullptr && strlen(pOutput) >= 3) {
-        std::string code_str { pOutput };
-        try {
-            return std::stoi(code_str.substr(0, 3));
-        }
-        catch (std::exception const &) {
-            return -1;
-        }
+    const size_t CODE_LENGTH = 3;
+    if (pOutput == nullptr || strlen(pOutput) < CODE_LENGTH) {
+        return -1;
+    }
+    const std::string code_str(pOutput, CODE_LENGTH);
+    if (code_str.find_first_not_of("0123456789") != std::string::npos || code_str[0] == '0') {
+        return -1;
     }
-    return -1;
+    return std::stoi(code_str);
 }
 
 ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
-- 
2.43.0


From c611dcef48a87482a3a828d2ef5e6ea22d03ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 08/31] fix: STARTTLS and AUTH offers are recognised on any
 line of the EHLO reply and in any case

---
 src/opportunisticsecuresmtpclient.cpp | 18 ++++++++----
 src/smtpclientbase.cpp                | 41 +++++++++++----------------
 2 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..7772b4d 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -1,5 +1,6 @@
 #include "opportunisticsecuresmtpclient.h"
 #include <openssl/err.h>
+#include <algorithm>
 #include <string>
 #include <utility>
 #include "smtpserverstatuscodes.h"
@@ -104,11 +105,16 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
     if (pServerResponse == nullptr) {
         return false;
     }
-    std::string serverResponse { pServerResponse };
-    if (serverResponse.length() == 0 || StringUtils::trim(serverResponse).empty()) {
-        return false;
+    // The keywords are case insensitive and alone on their line, the last one has no hyphen
+    const std::string serverResponse = StringUtils::toUpper(pServerResponse);
+    size_t line_start { 0 };
+    while (line_start < serverResponse.length()) {
+        const size_t line_end = (std::min)(serverResponse.find('\n', line_start), serverResponse.length());
+        const std::string line = StringUtils::trimRight(serverResponse.substr(line_start, line_end - line_start));
+        if (line == "250-STARTTLS" || line == "250 STARTTLS") {
+            return true;
+        }
+        line_start = line_end + 1;
     }
-
-    const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    return false;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9111f29..86b4df5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1106,15 +1106,13 @@ int SMTPClientBase::extractReturnCode(const char *pOutput) {
     return std::stoi(code_str);
 }
 
-ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
-    ServerAuthOptions *retval = nullptr;
-    const std::string AUTH_LINE_PREFIX = "250-AUTH";
-    const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
-    std::string line = authLine;
+std::unique_ptr<ServerAuthOptions> ParseAuthenticationOptions(const std::string &authLine) {
+    std::unique_ptr<ServerAuthOptions> retval;
+    // The keywords are case insensitive
+    std::string line = StringUtils::toUpper(authLine);
     // Find the line that begin with 250-AUTH or 250 AUTH
-    if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
-        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
-        retval = new ServerAuthOptions();
+    if (line.rfind("250-AUTH", 0) == 0 || line.rfind("250 AUTH", 0) == 0) {
+        retval.reset(new ServerAuthOptions());
         // Find each options
         std::vector<std::string> options;
         size_t line_character_index { 0 };
@@ -1146,26 +1144,21 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
 }
 
 ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhloOutput) {
-    ServerAuthOptions *retVal = nullptr;
     if (pEhloOutput == nullptr) {
-        return retVal;
-    }
-    const std::string DELIMITER { "\r\n" };
-    std::string ehlo_output { pEhloOutput };
-    size_t ehlo_character_index { 0 };
-    while ((ehlo_character_index = ehlo_output.find(DELIMITER)) != std::string::npos) {
-        std::string line { ehlo_output.substr(0, ehlo_character_index)};
-        ServerAuthOptions *parsedAuthOptions = ParseAuthenticationOptions(line);
+        return nullptr;
+    }
+    const std::string ehlo_output { pEhloOutput };
+    size_t line_start { 0 };
+    while (line_start < ehlo_output.length()) {
+        const size_t line_end = (std::min)(ehlo_output.find('\n', line_start), ehlo_output.length());
+        const std::string line = StringUtils::trimRight(ehlo_output.substr(line_start, line_end - line_start));
+        auto parsedAuthOptions = ParseAuthenticationOptions(line);
         if (parsedAuthOptions) {
-            retVal = parsedAuthOptions;
-            break;
-        }
-        ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
-            retVal = ParseAuthenticationOptions(ehlo_output);
+            return parsedAuthOptions.release();
         }
+        line_start = line_end + 1;
     }
-    return retVal;
+    return nullptr;
 }
 
 std::string SMTPClientBase::generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList) {
-- 
2.43.0


From ab8f5842091122baa663ffe56060451ec2e51000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 09/31] fix: a TLS session is never used with the unencrypted
 send commands of an earlier session

---
 src/securesmtpclientbase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 7b39db8..faf6e2d 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -306,6 +306,8 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     addCommunicationLogItem("TLS session ready!");
+    // The commands have to be sent through the TLS session, even if the previous session was unencrypted
+    setKeepUsingBaseSendCommands(false);
 
 #ifdef _WIN32
     CertFreeCertificateContext(pContext);
-- 
2.43.0


From 58e83432d01ff00c372b7892141ce2075c1756b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 10/31] fix: no crash when a server offers no authentication

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 86b4df5..11b8bcb 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -788,6 +788,9 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From 6d31bbfd3900db5bade51e8ef38c0cd098bcf4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 11/31] fix: a failed send closes its session instead of
 leaving it half-open for the next one

---
 src/smtpclientbase.cpp | 41 ++++++++++++++++++++++++++---------------
 src/smtpclientbase.h   |  1 +
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 11b8bcb..37bfc1f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -318,14 +318,34 @@ int SMTPClientBase::getErrorMessage_r(int errorCode,
 }
 
 int SMTPClientBase::sendMail(const Message &pMsg) {
-    if (!mIsConnected) {
-        int client_connect_ret_code = establishConnectionWithServer();
-        if (client_connect_ret_code != 0) {
-            return client_connect_ret_code;
+    try {
+        int ret_code { 0 };
+        if (!mIsConnected) {
+            ret_code = establishConnectionWithServer();
+            mIsConnected = ret_code == 0;
         }
+        if (mIsConnected) {
+            ret_code = sendMailInSession(pMsg);
+            if (ret_code > 0) {
+                // The message has been refused, the session ends here
+                sendQuitCommand();
+            }
+        }
+        // A session is only kept for the next message after a success in batch mode
+        if (ret_code != 0 || !mBatchMode) {
+            mIsConnected = false;
+            cleanup();
+        }
+        return ret_code;
+    }
+    catch (...) {
+        mIsConnected = false;
+        cleanup();
+        throw;
     }
-    mIsConnected = true;
+}
 
+int SMTPClientBase::sendMailInSession(const Message &pMsg) {
     int set_mail_recipients_ret_code = setMailRecipients(pMsg);
     if (set_mail_recipients_ret_code != 0) {
         return set_mail_recipients_ret_code;
@@ -336,18 +356,9 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
         return set_mail_headers_ret_code;
     }
 
-    int set_mail_body_ret_code = setMailBody(pMsg);
-    if (set_mail_body_ret_code != 0) {
-        return set_mail_body_ret_code;
-    }
-
-    if (!mBatchMode) {
-        cleanup();
-    }
-    return 0;
+    return setMailBody(pMsg);
 }
 
-
 int SMTPClientBase::initializeSession() {
     std::unique_ptr<char[]> communicationLog(new char[INITIAL_COMM_LOG_LENGTH]);
     delete[] mCommunicationLog;
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 8c09b76..f2b3f73 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -197,6 +197,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int authenticateWithMethodLogin();
     int authenticatedWithMethodXOauth2();
     // Methods to send an email
+    int sendMailInSession(const Message &pMsg);
     int setMailRecipients(const Message &pMsg);
     int addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK);
     int setMailHeaders(const Message &pMsg);
-- 
2.43.0


From 0b525319a4c4b4b94977ed1692a2d558960bf945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 12/31] fix: stop at the first refused recipient, and at a To
 or Cc header that could not be sent

---
 src/smtpclientbase.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 37bfc1f..6687290 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -924,17 +924,15 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 }
 
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
-    int rcpt_to_ret_code = RECIPIENT_OK;
-    std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
-            std::stringstream ss_rcpt_to;
-            ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
-            addCommunicationLogItem(ss_rcpt_to.str().c_str());
-            int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
-            if (ret_code != RECIPIENT_OK) {
-            rcpt_to_ret_code = ret_code;
-            }
-            });
-    return rcpt_to_ret_code;
+    for (size_t index = 0; index < count; ++index) {
+        const std::string rcpt_to = "RCPT TO: <"s + list[index]->getEmailAddress() + ">\r\n"s;
+        addCommunicationLogItem(rcpt_to.c_str());
+        int ret_code = (*this.*sendCommandWithFeedbackPtr)(rcpt_to.c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
+        if (ret_code != RECIPIENT_OK) {
+            return ret_code;
+        }
+    }
+    return RECIPIENT_OK;
 }
 
 int SMTPClientBase::setMailHeaders(const Message &pMsg) {
@@ -963,13 +961,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From d3ea3f2c7b3001284beb281d35442ed18786b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 13/31] fix: a timeout during AUTH LOGIN is reported as an
 authentication timeout

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 6687290..a9b405b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -843,7 +843,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
             CLIENT_AUTHENTICATE_ERROR,
             CLIENT_AUTHENTICATE_TIMEOUT);
     if (login_return_code != STATUS_CODE_SERVER_CHALLENGE) {
-        return CLIENT_AUTHENTICATE_ERROR;
+        return login_return_code == CLIENT_AUTHENTICATE_TIMEOUT ? CLIENT_AUTHENTICATE_TIMEOUT : CLIENT_AUTHENTICATE_ERROR;
     }
 
     std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
@@ -854,7 +854,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
             CLIENT_AUTHENTICATE_ERROR,
             CLIENT_AUTHENTICATE_TIMEOUT);
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
-        return CLIENT_AUTHENTICATE_ERROR;
+        return username_return_code == CLIENT_AUTHENTICATE_TIMEOUT ? CLIENT_AUTHENTICATE_TIMEOUT : CLIENT_AUTHENTICATE_ERROR;
     }
     std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
             strlen(mCredential->getPassword())) };
-- 
2.43.0


From 9907eea0c5b304ba97e05fde9138bcb7fae46d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 14/31] fix: lines of the message that begin with a dot are
 dot-stuffed

---
 src/smtpclientbase.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index a9b405b..bc6930b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1019,6 +1019,19 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
         body_real += attachments_text;
     }
 
+    // A dot at the beginning of a line is doubled, it would otherwise be removed or end the message
+    const std::string LINE_WITH_DOT { "\r\n." };
+    std::string body_dot_stuffed;
+    size_t dot_pos { 0 };
+    size_t copied { 0 };
+    while ((dot_pos = body_real.find(LINE_WITH_DOT, copied)) != std::string::npos) {
+        body_dot_stuffed.append(body_real, copied, dot_pos + LINE_WITH_DOT.length() - copied);
+        body_dot_stuffed += '.';
+        copied = dot_pos + LINE_WITH_DOT.length();
+    }
+    body_dot_stuffed.append(body_real, copied, std::string::npos);
+    body_real.swap(body_dot_stuffed);
+
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
         // Split into chunk
-- 
2.43.0


From d7d7212cad44d290cb8f877ee5f771d46a624899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 15/31] fix: line breaks in names and subjects never become
 header lines or commands, names with special characters are quoted

---
 src/smtpclientbase.cpp | 92 +++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 29 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index bc6930b..320ff0b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -40,6 +40,51 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+// A line break in a text would end the header or the command that contains it
+std::string singleLine(const char *pText) {
+    std::string text { pText };
+    std::replace_if(text.begin(), text.end(), [](char c) { return c == '\r' || c == '\n'; }, ' ');
+    return text;
+}
+
+// The content of a text between double quotes
+std::string quotedContent(const std::string &pText) {
+    std::string retval;
+    for (const char c : pText) {
+        if (c == '"' || c == '\\') {
+            retval += '\\';
+        }
+        retval += c;
+    }
+    return retval;
+}
+
+// Indicate if a text is already between double quotes
+bool isQuotedString(const std::string &pText) {
+    if (pText.length() < 2 || pText.front() != '"') {
+        return false;
+    }
+    size_t index { 1 };
+    while (index < pText.length() && pText[index] != '"') {
+        index += pText[index] == '\\' ? 2 : 1;
+    }
+    return index == pText.length() - 1;
+}
+
+// The text of an address in a header
+std::string headerAddressValue(const MessageAddress &pAddress) {
+    std::string display_name = singleLine(pAddress.getDisplayName());
+    if (display_name.empty()) {
+        return pAddress.getEmailAddress();
+    }
+    if (display_name.find_first_of("()<>[]:;@\\,\"") != std::string::npos && !isQuotedString(display_name)) {
+        display_name = "\""s + quotedContent(display_name) + "\""s;
+    }
+    return display_name + " <" + pAddress.getEmailAddress() + ">";
+}
+}  // namespace
+
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
     : mIsConnected(false),
       mServerName(nullptr),
@@ -885,7 +930,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + singleLine(pMsg.getFrom().getDisplayName()) + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -946,14 +991,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Mail headers
     // From
-    std::stringstream from_header_ss;
-    const MessageAddress &from_addr = pMsg.getFrom();
-    if (strlen(from_addr.getDisplayName()) > 0) {
-        from_header_ss << from_addr.getDisplayName() << " <" << from_addr.getEmailAddress() << ">";
-    } else {
-        from_header_ss << from_addr.getEmailAddress();
-    }
-    int header_from_ret_code = addMailHeader("From", from_header_ss.str().c_str(), CLIENT_SENDMAIL_HEADERFROM_ERROR);
+    int header_from_ret_code = addMailHeader("From", headerAddressValue(pMsg.getFrom()).c_str(), CLIENT_SENDMAIL_HEADERFROM_ERROR);
     if (header_from_ret_code != 0) {
         return header_from_ret_code;
     }
@@ -977,10 +1015,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Subject
-    std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
-    addCommunicationLogItem(ss_header_subject.str().c_str());
-    int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
+    int header_subject_ret_code = addMailHeader("Subject", singleLine(pMsg.getSubject()).c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
         return header_subject_ret_code;
     }
@@ -997,10 +1032,9 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 }
 
 int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErrorCode) {
-    std::stringstream ss_header_item;
-    ss_header_item << field << ": " << value << "\r\n";
-    addCommunicationLogItem(ss_header_item.str().c_str());
-    return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
+    const std::string header_item = field + ": "s + value + "\r\n"s;
+    addCommunicationLogItem(header_item.c_str());
+    return (*this.*sendCommandPtr)(header_item.c_str(), pErrorCode);
 }
 
 int SMTPClientBase::setMailBody(const Message &pMsg) {
@@ -1106,13 +1140,15 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
     std::string retval;
     for (const auto &item : pAttachments) {
         retval += "\r\n--sep\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
+        const std::string name = quotedContent(singleLine(item->getName()));
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            const std::string contentId = singleLine(item->getContentId());
+            retval += "X-Attachment-Id: " + contentId + "\r\n";
+            retval += "Content-ID: <" + contentId + ">\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
@@ -1193,14 +1229,12 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
 }
 
 std::string SMTPClientBase::generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList) {
-    std::stringstream retval;
-    size_t index = 0;
+    std::string retval;
     for (auto addr : pList) {
-        if (index > 0) {
-            retval << ", ";
+        if (!retval.empty()) {
+            retval += ", ";
         }
-        retval << std::string(*addr);
-        index++;
+        retval += headerAddressValue(*addr);
     }
-    return retval.str();
+    return retval;
 }
-- 
2.43.0


From b3d850fe7a251ff509e99fe62177dc152cf48208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 16/31] fix: body text that looks like the part separator no
 longer splits the message

---
 src/smtpclientbase.cpp | 25 +++++++++++++++++--------
 src/smtpclientbase.h   |  2 +-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 320ff0b..7507501 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -83,6 +83,16 @@ std::string headerAddressValue(const MessageAddress &pAddress) {
     }
     return display_name + " <" + pAddress.getEmailAddress() + ">";
 }
+
+// A separator of the message parts that is not part of the body text
+std::string multipartBoundary(const Message &pMsg) {
+    const std::string body { pMsg.getBody() };
+    std::string boundary { "sep" };
+    for (size_t suffix = 1; body.find("--" + boundary) != std::string::npos; ++suffix) {
+        boundary = "sep" + std::to_string(suffix) + "_";
+    }
+    return boundary;
+}
 }  // namespace
 
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
@@ -1021,7 +1031,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Content-Type
-    std::string content_type { "Content-Type: multipart/related; boundary=sep\r\n\r\n" };
+    const std::string content_type = "Content-Type: multipart/related; boundary=" + multipartBoundary(pMsg) + "\r\n\r\n";
     addCommunicationLogItem(content_type.c_str());
     int header_content_type_ret_code = (*this.*sendCommandPtr)(content_type.c_str(), CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR);
     if (header_content_type_ret_code != 0) {
@@ -1039,9 +1049,8 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
 
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
-    std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
-    std::string body_real = body_ss.str();
+    const std::string boundary = multipartBoundary(pMsg);
+    std::string body_real = "--" + boundary + "\r\nContent-Type: " + pMsg.getMimeType() + "; charset=UTF-8\r\n\r\n" + pMsg.getBody() + "\r\n";
     addCommunicationLogItem(body_real.c_str());
 
     // If there's attachments, prepare the attachments text content
@@ -1049,7 +1058,7 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
     if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment);
+        std::string attachments_text = createAttachmentsText(vect_attachment, boundary);
         body_real += attachments_text;
     }
 
@@ -1136,10 +1145,10 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        retval += "\r\n--sep\r\n";
+        retval += "\r\n--" + pBoundary + "\r\n";
         const std::string name = quotedContent(singleLine(item->getName()));
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
@@ -1157,7 +1166,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             delete[] b64;
         }
     }
-    retval += "\r\n--sep--";
+    retval += "\r\n--" + pBoundary + "--";
     return retval;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index f2b3f73..0653fb9 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -205,7 +205,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary = "sep");
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
-- 
2.43.0


From 58df31cc4ed294f3af9df172b078899ce18048c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 17/31] fix: a message with an unreadable attachment is not
 sent as if it was complete

---
 src/smtpclientbase.cpp | 19 +++++++++++++------
 src/smtpclientbase.h   |  4 +++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 7507501..3abc6cd 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1058,7 +1058,13 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
     if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment, boundary);
+        bool all_read { true };
+        std::string attachments_text = createAttachmentsText(vect_attachment, boundary, &all_read);
+        if (!all_read) {
+            // The message cannot be sent without the content of its attachments
+            addCommunicationLogItem("An attachment could not be read");
+            return CLIENT_SENDMAIL_BODYPART_ERROR;
+        }
         body_real += attachments_text;
     }
 
@@ -1145,7 +1151,7 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary, bool *pAllRead) {
     std::string retval;
     for (const auto &item : pAttachments) {
         retval += "\r\n--" + pBoundary + "\r\n";
@@ -1160,10 +1166,11 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
-        const char* b64 = item->getBase64EncodedFile();
-        if (b64 != nullptr) {
-            retval += std::string(b64);
-            delete[] b64;
+        const std::unique_ptr<const char[]> b64(item->getBase64EncodedFile());
+        if (b64) {
+            retval += b64.get();
+        } else if (pAllRead != nullptr) {
+            *pAllRead = false;
         }
     }
     retval += "\r\n--" + pBoundary + "--";
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 0653fb9..76cecfe 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -205,7 +205,9 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary = "sep");
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments,
+            const std::string &pBoundary = "sep",
+            bool *pAllRead = nullptr);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
-- 
2.43.0


From 3fad5fc03aad53186035ebd7d6e357d3e19b80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 18/31] fix: the certificate of a TLS session has to name the
 configured server

---
 src/securesmtpclientbase.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index faf6e2d..f589e36 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,9 +1,11 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <openssl/x509v3.h>
 #include <algorithm>
 #include <cstring>
 #include <limits>
+#include <memory>
 #include <new>
 #include <string>
 #include <utility>
@@ -283,11 +285,8 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     addCommunicationLogItem("<Check result of negotiation>", "c & s");
     /* Step 1: Verify a server certificate was presented
        during the negotiation */
-    X509* cert = SSL_get_peer_certificate(mSSL);
-    if (cert != nullptr) {
-        X509_free(cert); /* Free immediately */
-    }
-    if (cert == nullptr) {
+    const std::unique_ptr<X509, decltype(&X509_free)> cert(SSL_get_peer_certificate(mSSL), &X509_free);
+    if (!cert) {
         cleanup();
         return SSL_CLIENT_STARTTLS_GET_CERTIFICATE_ERROR;
     }
@@ -303,6 +302,14 @@ int SecureSMTPClientBase::startTLSNegotiation() {
             cleanup();
             return SSL_CLIENT_STARTTLS_VERIFY_RESULT_ERROR;
         }
+        /* Step 3: verify that the certificate is the one of the server */
+        const char *serverName = getServerName();
+        if (X509_check_host(cert.get(), serverName, 0, 0, nullptr) != 1
+                && X509_check_ip_asc(cert.get(), serverName, 0) != 1) {
+            addCommunicationLogItem("The certificate does not name the server", "s");
+            cleanup();
+            return SSL_CLIENT_STARTTLS_VERIFY_RESULT_ERROR;
+        }
     }
 
     addCommunicationLogItem("TLS session ready!");
-- 
2.43.0


From c24eae8a927b0412c39b0a511849c757eb41e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 19/31] fix: connecting survives interrupted calls and large
 descriptors, reports failed socket flags, and resolves names without shared
 buffers

---
 src/smtpclientbase.cpp | 87 +++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 51 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 3abc6cd..0d16bf5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -539,74 +539,58 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
-    struct timeval tv;
-    socklen_t lon;
-    int valopt;
     mSock = socket(AF_INET, SOCK_STREAM, 0);
     if (mSock < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *result = nullptr;
+    if (getaddrinfo(getServerName(), nullptr, &hints, &result) != 0 || result == nullptr) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, result->ai_addr, sizeof(saddr_in));
+    freeaddrinfo(result);
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    const int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
         return socketSetFlagsResult;
     }
-    std::stringstream ss;
-    ss << "Trying to connect to " << getServerName() << " on port " << getServerPort();
-    addCommunicationLogItem(ss.str().c_str());
-    int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
-    if (res < 0) {
-        if (errno == EINPROGRESS) {
-            do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
-                if (res < 0 && errno != EINTR) {
-                    setLastSocketErrNo(errno);
-                    addCommunicationLogItem(strerror(errno));
-                    return SOCKET_INIT_SESSION_CONNECT_ERROR;
-                } else if (res > 0) {
-                    // Socket selected for write
-                    lon = sizeof(int);
-                    if (getsockopt(mSock,
-                                   SOL_SOCKET,
-                                   SO_ERROR,
-                                   static_cast<void*>(&valopt), &lon) < 0) {
-                        setLastSocketErrNo(errno);
-                        addCommunicationLogItem(strerror(errno));
-                        return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;
-                    }
-                    // Check the value returned...
-                    if (valopt) {
-                        setLastSocketErrNo(valopt);
-                        addCommunicationLogItem(strerror(valopt));
-                        return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
-                    }
-                    break;
-                } else {
-                    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
-                }
-            } while (1);
-        } else {
+    const std::string message = "Trying to connect to "s + getServerName() + " on port " + std::to_string(getServerPort());
+    addCommunicationLogItem(message.c_str());
+    if (connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in)) < 0) {
+        // An interrupted connection continues in the background
+        if (errno != EINPROGRESS && errno != EINTR) {
             setLastSocketErrNo(errno);
             addCommunicationLogItem(strerror(errno));
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
+        setLastSocketErrNo(0);
+        if (!waitForSocket(true, getCommandDeadline())) {
+            if (mLastSocketErrNo != 0) {
+                addCommunicationLogItem(strerror(mLastSocketErrNo));
+                return SOCKET_INIT_SESSION_CONNECT_ERROR;
+            }
+            return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+        }
+        int valopt { 0 };
+        socklen_t lon = sizeof(valopt);
+        if (getsockopt(mSock, SOL_SOCKET, SO_ERROR, static_cast<void*>(&valopt), &lon) < 0) {
+            setLastSocketErrNo(errno);
+            addCommunicationLogItem(strerror(errno));
+            return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;
+        }
+        // Check the value returned...
+        if (valopt) {
+            setLastSocketErrNo(valopt);
+            addCommunicationLogItem(strerror(valopt));
+            return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
+        }
     }
     return 0;
 }
@@ -616,6 +600,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From 6e57750791a17f66f783b53bd517a93bc478dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 20/31] fix: texts of the session are built without streams,
 which hide a failed allocation and send incomplete text

---
 src/messageaddress.cpp | 13 +++++++------
 src/smtpclientbase.cpp | 35 +++++++++++++----------------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 91de178..639c91d 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -85,14 +85,15 @@ bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
 }
 
 MessageAddress::operator std::string() const {
-    std::ostringstream retval;
-    std::string display_name { mDisplayName };
-    if (display_name.empty()) {
-        retval << mEmailAddress;
+    std::string retval { mDisplayName };
+    if (retval.empty()) {
+        retval = mEmailAddress;
     } else {
-        retval << mDisplayName << " <" << mEmailAddress << ">";
+        retval += " <";
+        retval += mEmailAddress;
+        retval += ">";
     }
-    return retval.str();
+    return retval;
 }
 
 const char *MessageAddress::getEmailAddress() const {
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 0d16bf5..59a1897 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -865,16 +865,13 @@ int SMTPClientBase::authenticateClient() {
 
 int SMTPClientBase::authenticateWithMethodPlain() {
     addCommunicationLogItem("AUTH PLAIN ***************\r\n");
-    std::stringstream ss_credentials;
     // Format : \0username\0password
-    ss_credentials << '\0' << mCredential->getUsername() << '\0' << mCredential->getPassword();
-    std::string str_credentials = ss_credentials.str();
-    std::stringstream ss;
-    ss << "AUTH PLAIN "
-        << Base64::Encode(reinterpret_cast<const unsigned char*>(str_credentials.c_str()),
-                strlen(mCredential->getUsername()) + strlen(mCredential->getPassword()) + 2)  // + 2 for the two null characters
-        << "\r\n";
-    return (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
+    const std::string separator(1, '\0');
+    const std::string str_credentials = separator + mCredential->getUsername() + separator + mCredential->getPassword();
+    const std::string command = "AUTH PLAIN "
+        + Base64::Encode(reinterpret_cast<const unsigned char*>(str_credentials.c_str()), str_credentials.length())
+        + "\r\n";
+    return (*this.*sendCommandWithFeedbackPtr)(command.c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
 
 int SMTPClientBase::authenticateWithMethodLogin() {
@@ -888,9 +885,8 @@ int SMTPClientBase::authenticateWithMethodLogin() {
 
     std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
             strlen(mCredential->getUsername())) };
-    std::stringstream ss_username;
-    ss_username << encoded_username << "\r\n";
-    int username_return_code = (*this.*sendCommandWithFeedbackPtr)(ss_username.str().c_str(),
+    encoded_username += "\r\n";
+    int username_return_code = (*this.*sendCommandWithFeedbackPtr)(encoded_username.c_str(),
             CLIENT_AUTHENTICATE_ERROR,
             CLIENT_AUTHENTICATE_TIMEOUT);
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
@@ -898,24 +894,19 @@ int SMTPClientBase::authenticateWithMethodLogin() {
     }
     std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
             strlen(mCredential->getPassword())) };
-    std::stringstream ss_password;
-    ss_password << encoded_password << "\r\n";
-    return (*this.*sendCommandWithFeedbackPtr)(ss_password.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
+    encoded_password += "\r\n";
+    return (*this.*sendCommandWithFeedbackPtr)(encoded_password.c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
 
 int SMTPClientBase::authenticatedWithMethodXOauth2() {
     addCommunicationLogItem("XOauth 2 ***************\r\n");
-    std::stringstream encodedCredentials{};
-    encodedCredentials << "user=" << mCredential->getUsername() << "\001auth=Bearer " << mCredential->getPassword() << "\001\001";
-
-    auto rawCredentials = encodedCredentials.str();
+    const std::string rawCredentials = "user="s + mCredential->getUsername() + "\001auth=Bearer " + mCredential->getPassword() + "\001\001";
 
     std::string credentials = Base64::Encode(
         reinterpret_cast<const unsigned char*>(rawCredentials.c_str()), rawCredentials.length());
 
-    std::stringstream cmd{};
-    cmd << "AUTH XOAUTH2 " << credentials << "\r\n";
-    return (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
+    const std::string command = "AUTH XOAUTH2 " + credentials + "\r\n";
+    return (*this.*sendCommandWithFeedbackPtr)(command.c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
 
 int SMTPClientBase::setMailRecipients(const Message &pMsg) {
-- 
2.43.0


From d54aea1e0fa9615e9d95089de2eb11755f099f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:06 +0000
Subject: [PATCH 21/31] fix: a session kept open ends with QUIT even when the
 batch mode has been switched off

---
 src/securesmtpclientbase.cpp | 2 +-
 src/smtpclient.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index f589e36..95a7403 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -143,7 +143,7 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    const bool sendQuit = getBatchMode() && mIsConnected;
+    const bool sendQuit = mIsConnected;
     // Not connected anymore, whatever happens to the QUIT command
     mIsConnected = false;
     if (sendQuit) {
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 2f043fe..7991584 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -46,7 +46,7 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    const bool sendQuit = getBatchMode() && mIsConnected;
+    const bool sendQuit = mIsConnected;
     // Not connected anymore, whatever happens to the QUIT command
     mIsConnected = false;
     if (sendQuit) {
-- 
2.43.0


From fe5c9ee72dd3af399d77bec22afd6e294dcdb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 22/31] fix: the AUTH options are only read from the lines with
 the AUTH keyword, and from all of them

---
 src/smtpclientbase.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 59a1897..f50bcc8 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1169,8 +1169,13 @@ std::unique_ptr<ServerAuthOptions> ParseAuthenticationOptions(const std::string
     std::unique_ptr<ServerAuthOptions> retval;
     // The keywords are case insensitive
     std::string line = StringUtils::toUpper(authLine);
-    // Find the line that begin with 250-AUTH or 250 AUTH
-    if (line.rfind("250-AUTH", 0) == 0 || line.rfind("250 AUTH", 0) == 0) {
+    // Find the line with the keyword AUTH. Other keywords or the name of the server may begin with it.
+    const size_t KEYWORD_END = 8;
+    const bool isKeywordComplete = line.length() == KEYWORD_END
+                                   || (line.length() > KEYWORD_END && (line[KEYWORD_END] == ' ' || line[KEYWORD_END] == '='));
+    if (isKeywordComplete && (line.rfind("250-AUTH", 0) == 0 || line.rfind("250 AUTH", 0) == 0)) {
+        // Some servers also use the obsolete form AUTH=
+        std::replace(line.begin(), line.end(), '=', ' ');
         retval.reset(new ServerAuthOptions());
         // Find each options
         std::vector<std::string> options;
@@ -1207,17 +1212,26 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
         return nullptr;
     }
     const std::string ehlo_output { pEhloOutput };
+    std::unique_ptr<ServerAuthOptions> retval;
     size_t line_start { 0 };
     while (line_start < ehlo_output.length()) {
         const size_t line_end = (std::min)(ehlo_output.find('\n', line_start), ehlo_output.length());
         const std::string line = StringUtils::trimRight(ehlo_output.substr(line_start, line_end - line_start));
         auto parsedAuthOptions = ParseAuthenticationOptions(line);
-        if (parsedAuthOptions) {
-            return parsedAuthOptions.release();
+        if (parsedAuthOptions && retval) {
+            // A server may announce its options on more than one line
+            retval->Plain |= parsedAuthOptions->Plain;
+            retval->Login |= parsedAuthOptions->Login;
+            retval->XOAuth2 |= parsedAuthOptions->XOAuth2;
+            retval->Plain_ClientToken |= parsedAuthOptions->Plain_ClientToken;
+            retval->OAuthBearer |= parsedAuthOptions->OAuthBearer;
+            retval->XOAuth |= parsedAuthOptions->XOAuth;
+        } else if (parsedAuthOptions) {
+            retval = std::move(parsedAuthOptions);
         }
         line_start = line_end + 1;
     }
-    return nullptr;
+    return retval.release();
 }
 
 std::string SMTPClientBase::generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList) {
-- 
2.43.0


From b4e14620b307299e310c94ee5653e7c82689aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 23/31] fix: a recipient that the server forwards (251) is an
 accepted recipient

---
 src/smtpclientbase.cpp      | 3 ++-
 src/smtpserverstatuscodes.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f50bcc8..ab8b517 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -959,7 +959,8 @@ int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t c
         const std::string rcpt_to = "RCPT TO: <"s + list[index]->getEmailAddress() + ">\r\n"s;
         addCommunicationLogItem(rcpt_to.c_str());
         int ret_code = (*this.*sendCommandWithFeedbackPtr)(rcpt_to.c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
-        if (ret_code != RECIPIENT_OK) {
+        // The server also accepts a recipient that it will forward to another address
+        if (ret_code != RECIPIENT_OK && ret_code != STATUS_CODE_USER_NOT_LOCAL_WILL_FORWARD) {
             return ret_code;
         }
     }
diff --git a/src/smtpserverstatuscodes.h b/src/smtpserverstatuscodes.h
index 29c4934..717c840 100644
--- a/src/smtpserverstatuscodes.h
+++ b/src/smtpserverstatuscodes.h
@@ -4,6 +4,7 @@
 const int STATUS_CODE_SERVICE_READY = 220;
 const int STATUS_CODE_AUTHENTICATION_SUCCEEDED = 235;
 const int STATUS_CODE_REQUESTED_MAIL_ACTION_OK_OR_COMPLETED = 250;
+const int STATUS_CODE_USER_NOT_LOCAL_WILL_FORWARD = 251;
 const int STATUS_CODE_SERVER_CHALLENGE = 334;
 const int STATUS_CODE_START_MAIL_INPUT = 354;
 
-- 
2.43.0


From af6af4883a52dbd3654a956c83b2ae2c34ef29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 24/31] fix: long credentials are sent in one line

---
 src/smtpclientbase.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index ab8b517..f432935 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -48,6 +48,13 @@ std::string singleLine(const char *pText) {
     return text;
 }
 
+// The base64 text of a command, the line breaks of the long texts would end the command
+std::string encodeForCommand(const std::string &pText) {
+    std::string encoded = Base64::Encode(reinterpret_cast<const unsigned char*>(pText.c_str()), pText.length());
+    encoded.erase(std::remove_if(encoded.begin(), encoded.end(), [](char c) { return c == '\r' || c == '\n'; }), encoded.end());
+    return encoded;
+}
+
 // The content of a text between double quotes
 std::string quotedContent(const std::string &pText) {
     std::string retval;
@@ -868,9 +875,7 @@ int SMTPClientBase::authenticateWithMethodPlain() {
     // Format : \0username\0password
     const std::string separator(1, '\0');
     const std::string str_credentials = separator + mCredential->getUsername() + separator + mCredential->getPassword();
-    const std::string command = "AUTH PLAIN "
-        + Base64::Encode(reinterpret_cast<const unsigned char*>(str_credentials.c_str()), str_credentials.length())
-        + "\r\n";
+    const std::string command = "AUTH PLAIN " + encodeForCommand(str_credentials) + "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(command.c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
 
@@ -883,8 +888,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
         return login_return_code == CLIENT_AUTHENTICATE_TIMEOUT ? CLIENT_AUTHENTICATE_TIMEOUT : CLIENT_AUTHENTICATE_ERROR;
     }
 
-    std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
-            strlen(mCredential->getUsername())) };
+    std::string encoded_username { encodeForCommand(mCredential->getUsername()) };
     encoded_username += "\r\n";
     int username_return_code = (*this.*sendCommandWithFeedbackPtr)(encoded_username.c_str(),
             CLIENT_AUTHENTICATE_ERROR,
@@ -892,8 +896,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
         return username_return_code == CLIENT_AUTHENTICATE_TIMEOUT ? CLIENT_AUTHENTICATE_TIMEOUT : CLIENT_AUTHENTICATE_ERROR;
     }
-    std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
-            strlen(mCredential->getPassword())) };
+    std::string encoded_password { encodeForCommand(mCredential->getPassword()) };
     encoded_password += "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(encoded_password.c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
@@ -902,8 +905,7 @@ int SMTPClientBase::authenticatedWithMethodXOauth2() {
     addCommunicationLogItem("XOauth 2 ***************\r\n");
     const std::string rawCredentials = "user="s + mCredential->getUsername() + "\001auth=Bearer " + mCredential->getPassword() + "\001\001";
 
-    std::string credentials = Base64::Encode(
-        reinterpret_cast<const unsigned char*>(rawCredentials.c_str()), rawCredentials.length());
+    std::string credentials = encodeForCommand(rawCredentials);
 
     const std::string command = "AUTH XOAUTH2 " + credentials + "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(command.c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
-- 
2.43.0


From a259beeaa9272418628d42b3b654e537fc5e1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 25/31] fix: validate email addresses in linear time

The regular expression takes exponential time on some short addresses and
overflows the stack on long ones. The language accepted is the same.
---
 src/messageaddress.cpp | 52 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 639c91d..349d009 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -1,6 +1,6 @@
 #include "messageaddress.h"
 #include <cstddef>
-#include <regex>
+#include <cstring>
 #include <stdexcept>
 #include <string>
 #include "stringutils.h"
@@ -105,7 +105,51 @@ const char *MessageAddress::getDisplayName() const {
 }
 
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    std::regex emailPattern("^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$");
-    return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
-}
+    // The language accepted is the one of the regular expression
+    //   ^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$
+    // which std::regex needs exponential time and a stack frame per character for.
+    const std::string text = StringUtils::toLower(pEmailAddress);
+    const size_t length = text.length();
+    auto isLetter = [](char c) { return c >= 'a' && c <= 'z'; };
+    auto isDomainChar = [isLetter](char c) { return isLetter(c) || (c >= '0' && c <= '9') || c == '-'; };
+    auto isLocalChar = [isDomainChar](char c) { return isDomainChar(c) || c == '_'; };
+    auto isAnyChar = [](char c) { return c != '\n' && c != '\r'; };
+
+    if (length == 0 || !isLocalChar(text[0])) {
+        return false;
+    }
+    // The local part can't go further than the first separator that is not
+    // alone between two words.
+    size_t localEnd = 1;
+    while (localEnd < length && isAnyChar(text[localEnd]) &&
+            (isLocalChar(text[localEnd]) || isLocalChar(text[localEnd - 1]))) {
+        localEnd++;
+    }
 
+    // The address ends with any character followed by 2 to 4 letters
+    size_t letters = 0;
+    while (letters < 4 && letters < length && isLetter(text[length - 1 - letters])) {
+        letters++;
+    }
+    for (size_t suffix = 2; suffix <= letters && suffix + 1 < length; suffix++) {
+        const size_t domainEnd = length - suffix - 1;
+        if (!isAnyChar(text[domainEnd]) || !isDomainChar(text[domainEnd - 1])) {
+            continue;
+        }
+        // From the last word of the domain toward its first one
+        for (size_t index = domainEnd - 1; index >= 2; index--) {
+            const char previous = text[index - 1];
+            if (isDomainChar(text[index])) {
+                if (previous == '@' && index - 1 <= localEnd && isLocalChar(text[index - 2])) {
+                    return true;
+                }
+            } else if (!isDomainChar(previous)) {
+                break;
+            }
+            if (!isAnyChar(text[index])) {
+                break;
+            }
+        }
+    }
+    return false;
+}
-- 
2.43.0


From f1788583cdb30cc6f80e6e0dfce9e97c7d3a4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 26/31] fix: pick a multipart boundary in one pass over the
 body

The body was searched again for each separator it contains.
---
 src/smtpclientbase.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f432935..70e6e08 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -5,6 +5,7 @@
 #include <cstring>
 #include <limits>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -93,12 +94,28 @@ std::string headerAddressValue(const MessageAddress &pAddress) {
 
 // A separator of the message parts that is not part of the body text
 std::string multipartBoundary(const Message &pMsg) {
+    const std::string SEPARATOR { "sep" };
+    const std::string DELIMITER { "--" + SEPARATOR };
     const std::string body { pMsg.getBody() };
-    std::string boundary { "sep" };
-    for (size_t suffix = 1; body.find("--" + boundary) != std::string::npos; ++suffix) {
-        boundary = "sep" + std::to_string(suffix) + "_";
+    size_t index = body.find(DELIMITER);
+    if (index == std::string::npos) {
+        return SEPARATOR;
+    }
+    // Take the first numbered separator that the body does not have
+    std::set<std::string> used;
+    while (index != std::string::npos) {
+        const size_t number = index + DELIMITER.length();
+        const size_t numberEnd = body.find_first_not_of("0123456789", number);
+        if (numberEnd != std::string::npos && body[numberEnd] == '_' && numberEnd - number < 20) {
+            used.insert(body.substr(number, numberEnd - number));
+        }
+        index = body.find(DELIMITER, number);
+    }
+    size_t suffix = 1;
+    while (used.count(std::to_string(suffix)) > 0) {
+        ++suffix;
     }
-    return boundary;
+    return SEPARATOR + std::to_string(suffix) + "_";
 }
 }  // namespace
 
-- 
2.43.0


From 7b5d9356318bb9ef7aec5d65debb24f4ff8462bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 27/31] fix: write long bodies in the communication log in
 linear time

The whole item was moved for each line end it contains.
---
 src/smtpclientbase.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 70e6e08..04d258f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1120,11 +1120,14 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
         /* Replace the \ by \\ */
         const std::string FROM { "\r\n" };
         const std::string TO { "\\r\\n" };
-        size_t start_pos = 0;
-        while ((start_pos = item.find(FROM, start_pos)) != std::string::npos) {
-            item.replace(start_pos, FROM.length(), TO);
-            start_pos += TO.length();  // Handles case where 'to' is a substring of 'from'
+        std::string replaced;
+        size_t start_pos { 0 };
+        size_t found_pos { 0 };
+        while ((found_pos = item.find(FROM, start_pos)) != std::string::npos) {
+            replaced.append(item, start_pos, found_pos - start_pos).append(TO);
+            start_pos = found_pos + FROM.length();
         }
+        item = replaced.append(item, start_pos, std::string::npos);
     }
     const std::string ENDOFLINE { "\n" };
     const std::string SEPARATOR { ": " };
-- 
2.43.0


From 2768fae7b305343b185a454b7fc2e6cd674144a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 28/31] fix: read the authentication options of a server in
 linear time

The rest of the line was moved for each option, so a server could keep a
client busy far beyond its command timeout.
---
 src/smtpclientbase.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 04d258f..1f8c438 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1202,13 +1202,13 @@ std::unique_ptr<ServerAuthOptions> ParseAuthenticationOptions(const std::string
         retval.reset(new ServerAuthOptions());
         // Find each options
         std::vector<std::string> options;
+        size_t option_index { 0 };
         size_t line_character_index { 0 };
-        while ((line_character_index = line.find(' ')) != std::string::npos) {
-            std::string option { line.substr(0, line_character_index)};
-            options.push_back(option);
-            line.erase(0, line_character_index + 1);
+        while ((line_character_index = line.find(' ', option_index)) != std::string::npos) {
+            options.push_back(line.substr(option_index, line_character_index - option_index));
+            option_index = line_character_index + 1;
         }
-        options.push_back(line);
+        options.push_back(line.substr(option_index));
         // Try to match the string options with the ServerAuthOptions struct attributes
         for_each(options.begin(), options.end(), [&retval](const std::string &option) {
             if (option == "PLAIN") {
-- 
2.43.0


From 42da9a4b29faf97531a3d60529ad4e40b8a80a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 29/31] fix: let the moved-from objects of the C++ interface be
 read

Their texts are null pointers, from which no std::string can be made: the getters
threw std::logic_error.
---
 src/attachment.cpp                        | 7 ++++---
 src/cpp/attachment.cpp                    | 7 ++++---
 src/cpp/credential.cpp                    | 5 +++--
 src/cpp/forcedsecuresmtpclient.cpp        | 3 ++-
 src/cpp/messageaddress.cpp                | 5 +++--
 src/cpp/opportunisticsecuresmtpclient.cpp | 3 ++-
 src/cpp/smtpclient.cpp                    | 3 ++-
 src/messageaddress.cpp                    | 4 ++--
 src/stringutils.cpp                       | 4 ++++
 src/stringutils.h                         | 6 ++++++
 10 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b1493cf..9341217 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -110,7 +110,8 @@ const char *Attachment::getContentId() const {
 
 const char *Attachment::getBase64EncodedFile() const {
     // Open the file
-    std::ifstream in(mFilename, std::ios::in | std::ios::binary);
+    const char *filename = StringUtils::orEmpty(mFilename);
+    std::ifstream in(filename, std::ios::in | std::ios::binary);
     if (in) {
         in.seekg(0, std::ios::end);
         const auto size = static_cast<std::streamoff>(in.tellg());
@@ -131,12 +132,12 @@ const char *Attachment::getBase64EncodedFile() const {
         }
     }
 
-    std::cerr << "Could not read file " << mFilename << std::endl;
+    std::cerr << "Could not read file " << filename << std::endl;
     return nullptr;
 }
 
 const char *Attachment::getMimeType() const {
-    std::string filename_str { mFilename };
+    std::string filename_str { StringUtils::orEmpty(mFilename) };
     const std::string extension = StringUtils::toUpper(filename_str.substr(filename_str.find_last_of('.') + 1));
     // Images
     if (extension == "PNG") {
diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index e7deb72..f9a1ef5 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -1,5 +1,6 @@
 #include "attachment.hpp"
 #include <memory>
+#include "../stringutils.h"
 
 using namespace jed_utils::cpp;
 
@@ -12,15 +13,15 @@ void Attachment::setContentId(std::string pContentId) {
 }
 
 std::string Attachment::getName() const {
-    return jed_utils::Attachment::getName();
+    return StringUtils::orEmpty(jed_utils::Attachment::getName());
 }
 
 std::string Attachment::getFilename() const {
-    return jed_utils::Attachment::getFilename();
+    return StringUtils::orEmpty(jed_utils::Attachment::getFilename());
 }
 
 std::string Attachment::getContentId() const {
-    return jed_utils::Attachment::getContentId();
+    return StringUtils::orEmpty(jed_utils::Attachment::getContentId());
 }
 
 std::string Attachment::getBase64EncodedFile() const {
diff --git a/src/cpp/credential.cpp b/src/cpp/credential.cpp
index a033fd2..7e76538 100644
--- a/src/cpp/credential.cpp
+++ b/src/cpp/credential.cpp
@@ -1,4 +1,5 @@
 #include "credential.hpp"
+#include "../stringutils.h"
 
 using namespace jed_utils::cpp;
 
@@ -13,11 +14,11 @@ Credential::Credential(const std::string &pUsername, const std::string &pPasswor
 }
 
 std::string Credential::getUsername() const {
-    return jed_utils::Credential::getUsername();
+    return StringUtils::orEmpty(jed_utils::Credential::getUsername());
 }
 
 std::string Credential::getPassword() const {
-    return jed_utils::Credential::getPassword();
+    return StringUtils::orEmpty(jed_utils::Credential::getPassword());
 }
 
 auto Credential::getRecommendedAuthOption() const
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 82927f4..48e297f 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -1,5 +1,6 @@
 #include "forcedsecuresmtpclient.hpp"
 #include <string>
+#include "../stringutils.h"
 
 using namespace jed_utils::cpp;
 
@@ -8,7 +9,7 @@ ForcedSecureSMTPClient::ForcedSecureSMTPClient(const std::string &pServerName, u
 }
 
 std::string ForcedSecureSMTPClient::getServerName() const {
-    return jed_utils::ForcedSecureSMTPClient::getServerName();
+    return StringUtils::orEmpty(jed_utils::ForcedSecureSMTPClient::getServerName());
 }
 
 unsigned int ForcedSecureSMTPClient::getServerPort() const {
diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..762f4e1 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -1,5 +1,6 @@
 #include "messageaddress.hpp"
 #include <algorithm>
+#include "../stringutils.h"
 
 using namespace jed_utils::cpp;
 
@@ -13,11 +14,11 @@ MessageAddress::operator std::string() const {
 }
 
 std::string MessageAddress::getEmailAddress() const {
-    return jed_utils::MessageAddress::getEmailAddress();
+    return StringUtils::orEmpty(jed_utils::MessageAddress::getEmailAddress());
 }
 
 std::string MessageAddress::getDisplayName() const {
-    return jed_utils::MessageAddress::getDisplayName();
+    return StringUtils::orEmpty(jed_utils::MessageAddress::getDisplayName());
 }
 
 jed_utils::MessageAddress MessageAddress::toStdMessageAddress() const {
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 690f60c..25ff0d6 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -1,5 +1,6 @@
 #include "opportunisticsecuresmtpclient.hpp"
 #include <string>
+#include "../stringutils.h"
 
 using namespace jed_utils::cpp;
 
@@ -8,7 +9,7 @@ OpportunisticSecureSMTPClient::OpportunisticSecureSMTPClient(const std::string &
 }
 
 std::string OpportunisticSecureSMTPClient::getServerName() const {
-    return jed_utils::OpportunisticSecureSMTPClient::getServerName();
+    return StringUtils::orEmpty(jed_utils::OpportunisticSecureSMTPClient::getServerName());
 }
 
 unsigned int OpportunisticSecureSMTPClient::getServerPort() const {
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index fd62cc5..d660316 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -1,5 +1,6 @@
 #include "smtpclient.hpp"
 #include <string>
+#include "../stringutils.h"
 
 using namespace jed_utils::cpp;
 
@@ -8,7 +9,7 @@ SmtpClient::SmtpClient(const std::string &pServerName, unsigned int pPort)
 }
 
 std::string SmtpClient::getServerName() const {
-    return jed_utils::SmtpClient::getServerName();
+    return StringUtils::orEmpty(jed_utils::SmtpClient::getServerName());
 }
 
 unsigned int SmtpClient::getServerPort() const {
diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 349d009..8b40be4 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -85,9 +85,9 @@ bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
 }
 
 MessageAddress::operator std::string() const {
-    std::string retval { mDisplayName };
+    std::string retval { StringUtils::orEmpty(mDisplayName) };
     if (retval.empty()) {
-        retval = mEmailAddress;
+        retval = StringUtils::orEmpty(mEmailAddress);
     } else {
         retval += " <";
         retval += mEmailAddress;
diff --git a/src/stringutils.cpp b/src/stringutils.cpp
index 8b334fa..92430ae 100644
--- a/src/stringutils.cpp
+++ b/src/stringutils.cpp
@@ -55,3 +55,7 @@ std::unique_ptr<char[]> StringUtils::copyOf(const char *pString) {
     memcpy(copy.get(), pString, length + 1);
     return copy;
 }
+
+const char *StringUtils::orEmpty(const char *pString) {
+    return pString == nullptr ? "" : pString;
+}
diff --git a/src/stringutils.h b/src/stringutils.h
index 24645b2..1ca9c1f 100644
--- a/src/stringutils.h
+++ b/src/stringutils.h
@@ -56,6 +56,12 @@ class STRINGUTILS_API StringUtils {
      *  @param pString The string that will be copied.
      */
     static std::unique_ptr<char[]> copyOf(const char *pString);
+
+    /**
+     *  @brief  Return a null terminated string, empty if it is null like the texts of a moved-from object.
+     *  @param pString The string that will be returned.
+     */
+    static const char *orEmpty(const char *pString);
 };
 }  // namespace jed_utils
 
-- 
2.43.0


From cd1076b68542256b158c1ef385a552af2e0de7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 30/31] fix: let a moved-from address be compared

Its texts are null pointers, which strcmp cannot read.
---
 src/messageaddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 8b40be4..1fec868 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -80,8 +80,8 @@ MessageAddress& MessageAddress::operator=(MessageAddress&& other) noexcept {
 }
 
 bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
-    return (strcmp(mEmailAddress, pMsgComp.mEmailAddress) == 0 &&
-            strcmp(mDisplayName, pMsgComp.mDisplayName) == 0);
+    return (strcmp(StringUtils::orEmpty(mEmailAddress), StringUtils::orEmpty(pMsgComp.mEmailAddress)) == 0 &&
+            strcmp(StringUtils::orEmpty(mDisplayName), StringUtils::orEmpty(pMsgComp.mDisplayName)) == 0);
 }
 
 MessageAddress::operator std::string() const {
-- 
2.43.0


From e1772fba8b4e0dba6bb58b9b39f843cbde87be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 31/31] fix: define the comparison of the C++ message addresses

It was declared only, a program that compares two addresses did not link.
---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 762f4e1..35d2e1a 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -9,6 +9,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0

