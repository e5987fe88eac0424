From edf67b063f98d9e8d7427d8a9683cdc943b5cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 01/92] fix: MQTTSNPacket_encode wrote a 3-byte header for a
 255-byte packet

MQTTSNPacket_len() reserves one byte for the length of a packet of 255 bytes
in total, but MQTTSNPacket_encode() wrote three, so the serialisers wrote two
bytes past the checked length and the length field was wrong.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 86c1e90..87b130e 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -67,7 +67,7 @@ int MQTTSNPacket_encode(unsigned char* buf, int length)
 	int rc = 0;
 
 	FUNC_ENTRY;
-	if (length >= 255)
+	if (length > 255)
 	{
 		writeChar(&buf, 0x01);
 		writeInt(&buf, length);
-- 
2.43.0


From bbcac1ec4b6b38a3a3f26814314ec9ed1f756c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 02/92] fix: deserialisers read outside the packet when it is
 truncated

Check that the length field is complete, that the packet it announces was
received and that it is long enough for the fixed fields of the message type
before reading them. MQTTSNDeserialize_connack also returned 1 (success) for
packets of another type.
---
 MQTTSNPacket/src/MQTTSNConnectClient.c      | 42 +++------------------
 MQTTSNPacket/src/MQTTSNConnectServer.c      | 35 +++++------------
 MQTTSNPacket/src/MQTTSNDeserializePublish.c | 27 ++++---------
 MQTTSNPacket/src/MQTTSNPacket.c             | 28 ++++++++++++++
 MQTTSNPacket/src/MQTTSNPacket.h             |  1 +
 MQTTSNPacket/src/MQTTSNSearchClient.c       | 10 +----
 MQTTSNPacket/src/MQTTSNSearchServer.c       |  5 +--
 MQTTSNPacket/src/MQTTSNSubscribeClient.c    |  5 +--
 MQTTSNPacket/src/MQTTSNSubscribeServer.c    |  7 ++--
 MQTTSNPacket/src/MQTTSNUnsubscribeClient.c  |  5 +--
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c  |  7 ++--
 11 files changed, 63 insertions(+), 109 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index e8a6d93..de13694 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -87,12 +87,9 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += (rc = MQTTSNPacket_decode(curdata, buflen, &mylen)); /* read length */
-	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 2)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNACK)
@@ -197,12 +194,9 @@ int MQTTSNDeserialize_pingresp(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGRESP)
@@ -354,18 +348,9 @@ int MQTTSNDeserialize_willtopicreq(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
 
 	FUNC_ENTRY;
-	if (MQTTSNPacket_decode(curdata++, buflen, &mylen) != 1) /* read length */
-		goto exit;
-	if (mylen > buflen)
-	{
-		rc = MQTTSNPACKET_BUFFER_TOO_SHORT;
-		goto exit;
-	}
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICREQ)
@@ -389,18 +374,9 @@ int MQTTSNDeserialize_willmsgreq(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
 
 	FUNC_ENTRY;
-	if (MQTTSNPacket_decode(curdata++, buflen, &mylen) != 1) /* read length */
-		goto exit;
-	if (mylen > buflen)
-	{
-		rc = MQTTSNPACKET_BUFFER_TOO_SHORT;
-		goto exit;
-	}
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGREQ)
@@ -425,12 +401,9 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 2)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
@@ -457,12 +430,9 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 2)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 1b707ef..775e7fd 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -32,15 +32,12 @@ int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf
 {
 	MQTTSNFlags flags;
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
 	int version;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 2)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, len, 5)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNECT)
@@ -107,12 +104,9 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
@@ -197,14 +191,11 @@ exit:
 int MQTTSNDeserialize_pingreq(MQTTSNString* clientID, unsigned char* buf, int len)
 {
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, len, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGREQ)
@@ -260,20 +251,17 @@ int MQTTSNDeserialize_willtopic1(int *willQoS, unsigned char *willRetain, MQTTSN
 {
 	MQTTSNFlags flags;
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, len, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
 		goto exit;
 
-	flags.all = readChar(&curdata);
+	flags.all = (curdata < enddata) ? readChar(&curdata) : 0; /* an empty packet has no flags */
 	*willQoS = flags.bits.QoS;
 	*willRetain = flags.bits.retain;
 
@@ -322,14 +310,11 @@ int MQTTSNDeserialize_willtopicupd(int *willQoS, unsigned char *willRetain, MQTT
 int MQTTSNDeserialize_willmsg1(MQTTSNString* willMsg, unsigned char* buf, int len, enum MQTTSN_msgTypes packet_type)
 {
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, len, 1)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
diff --git a/MQTTSNPacket/src/MQTTSNDeserializePublish.c b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
index 98de94b..6d7ae52 100644
--- a/MQTTSNPacket/src/MQTTSNDeserializePublish.c
+++ b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
@@ -40,12 +40,9 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 6)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBLISH)
@@ -73,6 +70,8 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 
 	if (topic->type == MQTTSN_TOPIC_TYPE_NORMAL && *qos == 3)
 	{
+		if (topic->data.long_.len > enddata - curdata)
+			goto exit;
 		topic->data.long_.name = (char*)curdata;
 		curdata += topic->data.long_.len;
 	}
@@ -92,12 +91,9 @@ int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid,
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 6)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBACK)
@@ -127,12 +123,9 @@ int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigne
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 3)) /* read length */
 		goto exit;
 
 	*type = readChar(&curdata);
@@ -163,12 +156,9 @@ int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 5)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGISTER)
@@ -203,12 +193,9 @@ int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid,
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 6)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGACK)
diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 87b130e..ce9ce9d 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -116,6 +116,34 @@ exit:
 }
 
 
+/**
+ * Reads the length field of a received packet and checks it against the data which was received
+ * @param pptr pointer to the input buffer - moved past the length field if successful
+ * @param enddata returned pointer to the end of the packet: do not read beyond
+ * @param buflen the length in bytes of the data in the input buffer
+ * @param minlen the smallest number of bytes which must follow the length field
+ * @return 1 if the packet is complete and long enough, 0 if not
+ */
+int MQTTSNPacket_readHeader(unsigned char** pptr, unsigned char** enddata, int buflen, int minlen)
+{
+	int rc = 0;
+	int mylen = 0;
+	int lenlen = 0;
+
+	FUNC_ENTRY;
+	lenlen = MQTTSNPacket_decode(*pptr, buflen, &mylen);
+	if (lenlen <= 0 || mylen > buflen || mylen - lenlen < minlen)
+		goto exit;
+
+	*enddata = *pptr + mylen;
+	*pptr += lenlen;
+	rc = 1;
+exit:
+	FUNC_EXIT_RC(rc);
+	return rc;
+}
+
+
 /**
  * Calculates an integer from two bytes read from the input buffer
  * @param pptr pointer to the input buffer - incremented by the number of bytes used & returned
diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 3d9b296..0d4cc44 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -133,6 +133,7 @@ int MQTTSNPacket_len(int length);
 
 int MQTTSNPacket_encode(unsigned char* buf, int length);
 int MQTTSNPacket_decode(unsigned char* buf, int buflen, int* value);
+int MQTTSNPacket_readHeader(unsigned char** pptr, unsigned char** enddata, int buflen, int minlen);
 
 int readInt(unsigned char** pptr);
 char readChar(unsigned char** pptr);
diff --git a/MQTTSNPacket/src/MQTTSNSearchClient.c b/MQTTSNPacket/src/MQTTSNSearchClient.c
index af93c19..ed74e42 100644
--- a/MQTTSNPacket/src/MQTTSNSearchClient.c
+++ b/MQTTSNPacket/src/MQTTSNSearchClient.c
@@ -33,12 +33,9 @@ int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* durati
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 4)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_ADVERTISE)
@@ -102,12 +99,9 @@ int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayad
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 2)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_GWINFO)
diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index c83fd16..c6d598d 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -65,12 +65,9 @@ int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int bu
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 2)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SEARCHGW)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeClient.c b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
index 97680ed..538eea5 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
@@ -112,12 +112,9 @@ int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short*
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 7)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index 54f6faa..1b8d1a0 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -36,12 +36,9 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 4)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBSCRIBE)
@@ -60,6 +57,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
index 9d952f7..c82c3d5 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
@@ -94,12 +94,9 @@ int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 3)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index fe727bc..6de0ef4 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -24,12 +24,9 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_readHeader(&curdata, &enddata, buflen, 4)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBSCRIBE)
@@ -44,6 +41,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
-- 
2.43.0


From b6603efcc98345b0ed132677a66b888c04864438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 03/92] fix: MQTTSNPacket_read returned a byte from outside the
 packet as its type

A packet whose length field is incomplete, or which ends with it, has no type.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index ce9ce9d..23c17ba 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -295,7 +295,7 @@ int MQTTSNPacket_read(unsigned char* buf, int buflen, int (*getfn)(unsigned char
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen <= 0 || datalen != len || lenlen >= len)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
@@ -312,7 +312,7 @@ int MQTTSNPacket_read_nb(unsigned char* buf, int buflen)
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen <= 0 || datalen != len || lenlen >= len)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
-- 
2.43.0


From 53cc39dedbb9c7c7909e866f5e0464679fa78fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 04/92] fix: the DUP flag was returned as 255 instead of 1

A signed one-bit field holds 0 and -1.
---
 MQTTSNPacket/src/MQTTSNPacket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 0d4cc44..49fe2bd 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -85,7 +85,7 @@ typedef union
 #if defined(REVERSED)
 	struct
 	{
-		int dup: 1;
+		unsigned int dup: 1;
 		unsigned int QoS : 2;
 		unsigned int retain : 1;
 		unsigned int will : 1;
@@ -100,7 +100,7 @@ typedef union
 		unsigned int will : 1;
 		unsigned int retain : 1;
 		unsigned int QoS : 2;
-		int dup: 1;
+		unsigned int dup: 1;
 	} bits;
 #endif
 } MQTTSNFlags;
-- 
2.43.0


From beb0226e499699bc5c69a3223cca1284a5baad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 05/92] fix: strings were written by another rule than they
 were measured by

MQTTSNstrlen() takes the C string if there is one, writeMQTTSNString() took the
length delimited string, so a string with both overran the checked length.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 23c17ba..3a680de 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -219,13 +219,13 @@ int getLenStringLen(char* ptr)
 
 void writeMQTTSNString(unsigned char** pptr, MQTTSNString MQTTSNString)
 {
-	if (MQTTSNString.lenstring.len > 0)
+	if (MQTTSNString.cstring)
+		writeCString(pptr, MQTTSNString.cstring);
+	else if (MQTTSNString.lenstring.len > 0)
 	{
 		memcpy(*pptr, (const unsigned char*)MQTTSNString.lenstring.data, MQTTSNString.lenstring.len);
 		*pptr += MQTTSNString.lenstring.len;
 	}
-	else if (MQTTSNString.cstring)
-		writeCString(pptr, MQTTSNString.cstring);
 }
 
 
-- 
2.43.0


From 29cdfcdb886eadfa7e6241caa992e1cce3bca007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 06/92] fix: readMQTTSNString left the cstring of a non-empty
 string unset

---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 3a680de..71457f7 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -247,10 +247,8 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 		*pptr += MQTTSNString->lenstring.len;
 	}
 	else
-	{
 		MQTTSNString->lenstring.data = NULL;
-		MQTTSNString->cstring = NULL;
-	}
+	MQTTSNString->cstring = NULL;
 	rc = 1;
 	FUNC_EXIT_RC(rc);
 	return rc;
-- 
2.43.0


From 663c12461a66e60cfa155cb01ff445807c1d5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 07/92] fix: MQTTSNDeserialize_disconnect left the duration of
 a packet without one unset

It is documented to be -1.
---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp   | 2 +-
 MQTTSNPacket/src/MQTTSNConnectServer.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 72189db..40eb846 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -397,7 +397,7 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 {
     int dur = 0;
     int rc = MQTTSNDeserialize_disconnect(&dur, _buf, _bufLen);
-    *duration = (uint16_t) dur;
+    *duration = (uint16_t) (dur < 0 ? 0 : dur);
     return rc;
 }
 
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 775e7fd..d1118a3 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -112,6 +112,7 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
 		goto exit;
 
+	*duration = -1;
 	if (enddata - curdata == 2)
 		*duration = readInt(&curdata);
 	else if (enddata != curdata)
-- 
2.43.0


From 6f4237498c92a805ffd55ab88b3ad55edfc38815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 08/92] fix: return codes above 127 were decoded as negative
 numbers

CONNACK, WILLTOPICRESP and WILLMSGRESP went through a signed char.
---
 MQTTSNPacket/src/MQTTSNConnectClient.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index de13694..7614de8 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -95,7 +95,7 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	if (readChar(&curdata) != MQTTSN_CONNACK)
 		goto exit;
 
-	*connack_rc = readChar(&curdata);
+	*connack_rc = (unsigned char)readChar(&curdata);
 
 	rc = 1;
 exit:
@@ -409,7 +409,7 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
 		goto exit;
 
-	*resp_rc = readChar(&curdata);
+	*resp_rc = (unsigned char)readChar(&curdata);
 
 	rc = 1;
 exit:
@@ -438,7 +438,7 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
 		goto exit;
 
-	*resp_rc = readChar(&curdata);
+	*resp_rc = (unsigned char)readChar(&curdata);
 
 	rc = 1;
 exit:
-- 
2.43.0


From 3414d71f4438c2b811f5a48fe96fcdeff2be63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 09/92] fix: the will handshake was refused with DISCONNECT;
 WILLTOPIC and WILLMSG count only while awaited

---
 .../src/MQTTSNAggregateConnectionHandler.cpp         |  1 +
 MQTTSNGateway/src/MQTTSNGWClient.cpp                 | 12 ++++++++++++
 MQTTSNGateway/src/MQTTSNGWClient.h                   |  3 +++
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp         |  6 +++++-
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp      |  8 ++++++++
 5 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 8e81351..43da2fe 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -102,6 +102,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         evwr->setClientSendEvent(client, reqTopic);
 
         /* Send WILLTOPICREQ to the client */
+        client->setWaitWillTopicFlg(true);
         _gateway->getClientSendQue()->post(evwr);
     }
     else
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index b209265..1b8a8c9 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -48,6 +48,7 @@ Client::Client()
     _network = new Network();
     _sensorNetype = true;
     _connAck = nullptr;
+    _waitWillTopicFlg = false;
     _waitWillMsgFlg = false;
     _sessionStatus = false;
     _prevClient = nullptr;
@@ -308,6 +309,7 @@ void Client::connackSended(int rc)
 void Client::disconnected(void)
 {
     _status = Cstat_Disconnected;
+    _waitWillTopicFlg = false;
     _waitWillMsgFlg = false;
 }
 
@@ -388,6 +390,16 @@ ClientStatus Client::getClientStatus(void)
     return _status;
 }
 
+void Client::setWaitWillTopicFlg(bool flg)
+{
+    _waitWillTopicFlg = flg;
+}
+
+bool Client::isWaitWillTopic(void)
+{
+    return _waitWillTopicFlg;
+}
+
 void Client::setWaitWillMsgFlg(bool flg)
 {
     _waitWillMsgFlg = flg;
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 6a62f16..cfbb4b2 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -243,6 +243,7 @@ public:
     char* getWillTopic(void);
     char* getWillMsg(void);
     const char* getStatus(void);
+    void setWaitWillTopicFlg(bool);
     void setWaitWillMsgFlg(bool);
     void setSessionStatus(bool);  // true: clean session
     bool erasable(void);
@@ -254,6 +255,7 @@ public:
     bool isAwake(void);
     bool isSecureNetwork(void);
     bool isSensorNetStable(void);
+    bool isWaitWillTopic(void);
     bool isWaitWillMsg(void);
 	bool isCleanSession(void);
 
@@ -286,6 +288,7 @@ private:
     uint32_t _keepAliveMsec;
 
     ClientStatus _status;
+    bool _waitWillTopicFlg;
     bool _waitWillMsgFlg;
 
     uint16_t _packetId;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f4c019b..56c58df 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -149,7 +149,11 @@ void ClientRecvTask::run()
         {
             log(client, packet, 0);
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT)
+            /* WILLTOPIC and WILLMSG which were requested belong to the connection procedure */
+            bool willRequested = (packet->getType() == MQTTSN_WILLTOPIC && (client->isWaitWillTopic() || client->isWaitWillMsg()))
+                    || (packet->getType() == MQTTSN_WILLMSG && client->isWaitWillMsg());
+
+            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !willRequested)
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 69f3b41..80c22c0 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -140,6 +140,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         evwr->setClientSendEvent(client, reqTopic);
 
         /* Send WILLTOPICREQ to the client */
+        client->setWaitWillTopicFlg(true);
         _gateway->getClientSendQue()->post(evwr);
     }
     else
@@ -164,6 +165,12 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     uint8_t willRetain;
     MQTTSNString willTopic = MQTTSNString_initializer;
 
+    /* WILLTOPIC may be sent again while WILLMSG is awaited */
+    if (!client->isWaitWillTopic() && !client->isWaitWillMsg())
+    {
+        return;
+    }
+
     if (packet->getWILLTOPIC(&willQos, &willRetain, &willTopic) == 0)
     {
         return;
@@ -177,6 +184,7 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     connectData->flags.bits.willRetain = willRetain;
 
     /* Send WILLMSGREQ to the client */
+    client->setWaitWillTopicFlg(false);
     client->setWaitWillMsgFlg(true);
     MQTTSNPacket* reqMsg = new MQTTSNPacket();
     reqMsg->setWILLMSGREQ();
-- 
2.43.0


From 874bceaf5cdc14dadd76ea08f9eca38b548533c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 10/92] fix: PUBACK for a short topic name carried its two
 characters in the wrong order

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 3824173..47c9f1e 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -75,6 +75,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     {
         shortTopic[0] = topicid.data.short_name[0];
         shortTopic[1] = topicid.data.short_name[1];
+        tid = ((uint8_t) shortTopic[0] << 8) | (uint8_t) shortTopic[1];
         pub.topic = shortTopic;
         pub.topiclen = 2;
     }
-- 
2.43.0


From c09aabe12af57fba73b87c1fa0060a6daee13e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 11/92] fix: a broken broker connection was kept, and read in
 an endless loop, unless the client was active or asleep

---
 MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
index b702ab5..82f9b9a 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
@@ -164,7 +164,7 @@ void BrokerRecvTask::run(void)
 
                                 delete packet;
 
-                                if ((rc == -1 || rc == -2) && (client->isActive() || client->isSleep() || client->isAwake()))
+                                if (rc == -1 || rc == -2)
                                 {
                                     client->getNetwork()->close();
                                     client->disconnected();
-- 
2.43.0


From f05691876e8ce6171d0fada59dbbfd6e574dc20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 12/92] fix: a wake-up with kept messages was not concluded
 with PINGRESP when no topic had to be registered

---
 .../src/MQTTSNGWConnectionHandler.cpp         | 24 +++++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.h |  1 +
 .../src/MQTTSNGWPacketHandleTask.cpp          |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 80c22c0..12ce347 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -291,6 +291,13 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
     {
         sendStoredPublish(client);
         client->holdPingRequest();
+
+        /* an event behind the stored PUBLISHes to conclude the wake-up, see handleStoredPublishSent() */
+        MQTTGWPacket* mark = new MQTTGWPacket();
+        mark->setHeader(PINGREQ);
+        Event* evt = new Event();
+        evt->setBrokerRecvEvent(client, mark);
+        _gateway->getPacketEventQue()->post(evt);
     }
     else
     {
@@ -304,6 +311,23 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
     }
 }
 
+/*
+ *  The stored PUBLISHes have been handled. Send the held PINGREQ to the broker
+ *  unless a REGACK is awaited.
+ */
+void MQTTSNConnectionHandler::handleStoredPublishSent(Client* client)
+{
+    if (client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() == 0)
+    {
+        client->resetPingRequest();
+        MQTTGWPacket* pingreq = new MQTTGWPacket();
+        pingreq->setHeader(PINGREQ);
+        Event* evt = new Event();
+        evt->setBrokerSendEvent(client, pingreq);
+        _gateway->getBrokerSendQue()->post(evt);
+    }
+}
+
 void MQTTSNConnectionHandler::sendStoredPublish(Client* client)
 {
     MQTTGWPacket* msg = nullptr;
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
index eb75177..255c068 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
@@ -36,6 +36,7 @@ public:
     void handleWilltopicupd(Client* client, MQTTSNPacket* packet);
     void handleWillmsgupd(Client* client, MQTTSNPacket* packet);
     void handlePingreq(Client* client, MQTTSNPacket* packet);
+    void handleStoredPublishSent(Client* client);
 private:
     void sendStoredPublish(Client* client);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 08d1cfb..7199b1d 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -361,6 +361,9 @@ void PacketHandleTask::transparentPacketHandler(Client*client, MQTTGWPacket* pac
     case UNSUBACK:
         _mqttSubscribe->handleUnsuback(client, packet);
         break;
+    case PINGREQ:
+        _mqttsnConnection->handleStoredPublishSent(client); // posted by the gateway itself, not by the broker
+        break;
     case DISCONNECT:
         client->disconnected(); // Just change Client's status to "Disconnected"
         break;
-- 
2.43.0


From f0a4f0e8faf6aa09f1b5f86f7ad6175a439208ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 13/92] fix: a sleeping client which extended its sleep with
 DISCONNECT was treated as disconnected

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 1b8a8c9..0befd10 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -270,7 +270,16 @@ void Client::updateStatus(MQTTSNPacket* packet)
             _status = Cstat_Active;
             break;
         case MQTTSN_DISCONNECT:
-            disconnected();
+            uint16_t duration;
+            packet->getDISCONNECT(&duration);
+            if (duration)
+            {
+                _status = Cstat_Asleep;    /* the client goes on sleeping */
+            }
+            else
+            {
+                disconnected();
+            }
             break;
         case MQTTSN_PINGREQ:
             _status = Cstat_Awake;
-- 
2.43.0


From 42cc1b548adfa21953253d913ecefe28a44adb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 14/92] fix: a PUBLISH with QoS 0 to an unknown topic id was
 forwarded to the broker with an empty topic name

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 47c9f1e..31f3c24 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -103,7 +103,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             return nullptr;
         }
 
-        if (!topic && msgId && qos > 0 && qos < 3)
+        if (!topic)
         {
             /* Reply PubAck with INVALID_TOPIC_ID to the client */
             MQTTSNPacket* pubAck = new MQTTSNPacket();
@@ -113,13 +113,10 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             _gateway->getClientSendQue()->post(ev1);
             return nullptr;
         }
-        if (topic)
-        {
-            pub.topic = (char*) topic->getTopicName()->data();
-            pub.topiclen = topic->getTopicName()->length();
-            topicid.data.long_.name = pub.topic;
-            topicid.data.long_.len = pub.topiclen;
-        }
+        pub.topic = (char*) topic->getTopicName()->data();
+        pub.topiclen = topic->getTopicName()->length();
+        topicid.data.long_.name = pub.topic;
+        topicid.data.long_.len = pub.topiclen;
     }
     /* Save a msgId & a TopicId pare for PUBACK */
     if (msgId && qos > 0 && qos < 3)
-- 
2.43.0


From 71e5971dc4f2733c2dbb4002cb82c74e23896292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 15/92] fix: REGISTER of a topic beyond the maximum number of
 topics dereferenced a null pointer

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 31f3c24..842d3ea 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -211,10 +211,18 @@ void MQTTSNPublishHandler::handleRegister(Client* client, MQTTSNPacket* packet)
         topicid.data.long_.len = topicName.lenstring.len;
         topicid.data.long_.name = topicName.lenstring.data;
 
-        id = client->getTopics()->add(&topicid)->getTopicId();
+        Topic* topic = client->getTopics()->add(&topicid);
 
         MQTTSNPacket* regAck = new MQTTSNPacket();
-        regAck->setREGACK(id, msgId, MQTTSN_RC_ACCEPTED);
+        if (topic)
+        {
+            regAck->setREGACK(topic->getTopicId(), msgId, MQTTSN_RC_ACCEPTED);
+        }
+        else
+        {
+            WRITELOG("%s Client(%s) can't add the Topic.%s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            regAck->setREGACK(0, msgId, MQTTSN_RC_REJECTED_CONGESTED);
+        }
         Event* ev = new Event();
         ev->setClientSendEvent(client, regAck);
         _gateway->getClientSendQue()->post(ev);
-- 
2.43.0


From 9c9c9208bf12658e8c210fb4faf89145a7008f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 16/92] fix: a PUBLISH was delivered although the client had
 refused to register its topic

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 842d3ea..40e320a 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -247,9 +247,19 @@ void MQTTSNPublishHandler::handleRegAck(Client* client, MQTTSNPacket* packet)
         if (regAck != nullptr)
         {
             client->getWaitREGACKPacketList()->erase(msgId);
-            Event* ev = new Event();
-            ev->setClientSendEvent(client, regAck);
-            _gateway->getClientSendQue()->post(ev);
+
+            if (rc == MQTTSN_RC_ACCEPTED)
+            {
+                Event* ev = new Event();
+                ev->setClientSendEvent(client, regAck);
+                _gateway->getClientSendQue()->post(ev);
+            }
+            else
+            {
+                /* the client does not know the topic id */
+                WRITELOG("%s Client(%s) rejected REGISTER %d.%s\n", ERRMSG_HEADER, client->getClientId(), msgId, ERRMSG_FOOTER);
+                delete regAck;
+            }
         }
 
         if (client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() == 0)
-- 
2.43.0


From 33a3930b5bfc7e74bf13ba8fd4f84e1acd8feb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 17/92] fix: SUBACK for a short topic name with characters
 above 127 carried a wrong topic id

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 797e36b..ddc654a 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -108,8 +108,8 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         topicstr[0] = topicFilter.data.short_name[0];
         topicstr[1] = topicFilter.data.short_name[1];
         topicstr[2] = 0;
-        topicId = topicFilter.data.short_name[0] << 8;
-        topicId |= topicFilter.data.short_name[1];
+        topicId = (uint8_t) topicFilter.data.short_name[0] << 8;
+        topicId |= (uint8_t) topicFilter.data.short_name[1];
         subscribe = new MQTTGWPacket();
         subscribe->setSUBSCRIBE(topicstr, (uint8_t) qos, (uint16_t) msgId);
     }
-- 
2.43.0


From 7349d74926299e1f9b48644b43989ba140b4bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 18/92] fix: a client whose id is the beginning of another
 client's id was given that client's session

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index cc5006f..87de9eb 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -313,6 +313,7 @@ Client* ClientList::getClient(MQTTSNString* clientId)
     _mutex.lock();
     Client* client = _firstClient;
     const char* clID = clientId->cstring;
+    size_t len = MQTTSNstrlen(*clientId);
 
     if (clID == nullptr)
     {
@@ -321,7 +322,7 @@ Client* ClientList::getClient(MQTTSNString* clientId)
 
     while (client != nullptr)
     {
-        if (strncmp((const char*) client->getClientId(), clID, MQTTSNstrlen(*clientId)) == 0)
+        if (strlen(client->getClientId()) == len && strncmp((const char*) client->getClientId(), clID, len) == 0)
         {
             _mutex.unlock();
             return client;
-- 
2.43.0


From ca744982c9a70c71ac8600b7b41c6381ff8da0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 19/92] fix: with ClientAuthentication clients could connect
 which are not in the list or have another address

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 56c58df..8fa7ecd 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -191,27 +191,33 @@ void ClientRecvTask::run()
                     continue;
                 }
 
+                bool authentication = _gateway->getGWParams()->clientAuthentication;
                 client = clientList->getClient(&data.clientID);
 
                 if (fwd != nullptr)
                 {
-                    if (client == nullptr)
+                    if (client == nullptr && !authentication)
                     {
                         /* create a new client */
                         client = clientList->createClient(0, &data.clientID, clientType);
                     }
-                    /* Add to a forwarded client list of forwarder. */
-                    fwd->addClient(client, &nodeId);
+                    if (client != nullptr)
+                    {
+                        /* Add to a forwarded client list of forwarder. */
+                        fwd->addClient(client, &nodeId);
+                    }
+                }
+                else if (authentication)
+                {
+                    /* not in the list, or in it with another address */
+                    client = nullptr;
                 }
                 else
                 {
                     if (client)
                     {
                         /* Authentication is not required */
-                        if (_gateway->getGWParams()->clientAuthentication == false)
-                        {
-                            client->setClientAddress(&senderAddr);
-                        }
+                        client->setClientAddress(&senderAddr);
                     }
                     else
                     {
-- 
2.43.0


From 29c217d9f221868bf33030d8d4b5328675121b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 20/92] fix: every predefined topic of a client got a client
 entry of its own

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 87de9eb..b54573c 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -425,7 +425,10 @@ Client* ClientList::createPredefinedTopic(MQTTSNString* clientId, string topicNa
             return nullptr;
         }
 
-        client = createClient(NULL, clientId, aggregate);
+        if (client == nullptr)
+        {
+            client = createClient(NULL, clientId, aggregate);
+        }
 
         if (client == nullptr)
         {
-- 
2.43.0


From 0fbeda0ca76287e1b37236c895e295dd918cada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 21/92] fix: clients with predefined topics were made QoS -1
 clients instead of aggregated ones

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index b54573c..b6bd4ec 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -427,7 +427,7 @@ Client* ClientList::createPredefinedTopic(MQTTSNString* clientId, string topicNa
 
         if (client == nullptr)
         {
-            client = createClient(NULL, clientId, aggregate);
+            client = createClient(NULL, clientId, aggregate ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
         }
 
         if (client == nullptr)
-- 
2.43.0


From 94a72315bf50db2985ed2fd2f506e6bd4091672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 22/92] fix: clearing the topic id damaged the topic name
 pointer, a new topic of a kept session was registered with a wrong name

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 20381f1..79bdc23 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -131,7 +131,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicId.type = MQTTSN_TOPIC_TYPE_NORMAL;
                 topicId.data.long_.len = pub.topiclen;
                 topicId.data.long_.name = pub.topic;
-                topicId.data.id = 0;
             }
 
             /* add the Topic and get a TopicId */
-- 
2.43.0


From 17b869e48ee7663decd80300a550647fe19014b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 23/92] fix: SUBACK for a topic which could not be added
 carried a part of a pointer as topic id

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index ddc654a..e8c066a 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -129,7 +129,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
 
     RespExit: MQTTSNPacket* sSuback = new MQTTSNPacket();
-    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
+    sSuback->setSUBACK(qos, topicFilter.type == MQTTSN_TOPIC_TYPE_NORMAL ? 0 : topicFilter.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
     evsuback = new Event();
     evsuback->setClientSendEvent(client, sSuback);
     _gateway->getClientSendQue()->post(evsuback);
-- 
2.43.0


From 32bc81f90662c595c79532a2a295fba48a84f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 24/92] fix: the topic filter +/# did not match a topic name of
 one level

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 68cf1fe..9d650bd 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -148,7 +148,7 @@ bool Topic::isMatch(string* topicName)
         {
             string subtopic = topicName->substr(pos);
             string subtopict = _topicName->substr(tpos, tloc - tpos);
-            if (subtopic != subtopict)
+            if (subtopic != subtopict && subtopict != wildcards)
             {
                 return false;
             }
-- 
2.43.0


From 36277737942816c59acff2a6f52d85236826dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 25/92] fix: a clean CONNECT left PUBLISHes of the previous
 session to be delivered in the new one

---
 .../src/MQTTSNAggregateConnectionHandler.cpp     |  1 +
 MQTTSNGateway/src/MQTTSNGWClient.cpp             | 16 ++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWClient.h               |  2 ++
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp  |  1 +
 4 files changed, 20 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 43da2fe..5f697fb 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -75,6 +75,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         /* reset the table of msgNo and TopicId pare */
         client->clearWaitedPubTopicId();
         client->clearWaitedSubTopicId();
+        client->clearUndeliveredPublish();
 
         /* renew the TopicList */
         if (topics)
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 0befd10..d62a4c7 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -177,6 +177,14 @@ void Client::clearWaitedSubTopicId(void)
     _waitedSubTopicIdMap.clear();
 }
 
+/* forget the PUBLISHes of the session which were not delivered yet */
+void Client::clearUndeliveredPublish(void)
+{
+    _clientSleepPacketQue.clear();
+    _waitREGACKList.clear();
+    _holdPingRequest = false;
+}
+
 void Client::setWaitedPubTopicId(uint16_t msgId, uint16_t topicId, MQTTSN_topicid* topic)
 {
     _waitedPubTopicIdMap.add(msgId, topicId, topic);
@@ -630,6 +638,11 @@ WaitREGACKPacketList::WaitREGACKPacketList()
 }
 
 WaitREGACKPacketList::~WaitREGACKPacketList()
+{
+    clear();
+}
+
+void WaitREGACKPacketList::clear(void)
 {
     waitREGACKPacket* p = _first;
     while (p)
@@ -638,6 +651,9 @@ WaitREGACKPacketList::~WaitREGACKPacketList()
         delete p;
         p = q;
     }
+    _first = nullptr;
+    _end = nullptr;
+    _cnt = 0;
 }
 
 int WaitREGACKPacketList::setPacket(MQTTSNPacket* packet, uint16_t REGACKMsgId)
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index cfbb4b2..374ba44 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -139,6 +139,7 @@ public:
     int setPacket(MQTTSNPacket* packet, uint16_t REGACKMsgId);
     MQTTSNPacket* getPacket(uint16_t REGACKMsgId);
     void erase(uint16_t REGACKMsgId);
+    void clear(void);
     uint8_t getCount(void);
 
 private:
@@ -196,6 +197,7 @@ public:
     void eraseWaitedSubTopicId(uint16_t msgId);
     void clearWaitedPubTopicId(void);
     void clearWaitedSubTopicId(void);
+    void clearUndeliveredPublish(void);
 
     int setClientSleepPacket(MQTTGWPacket*);
     int setProxyPacket(MQTTSNPacket* packet);
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 12ce347..02b8763 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -121,6 +121,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         /* reset the table of msgNo and TopicId pare */
         client->clearWaitedPubTopicId();
         client->clearWaitedSubTopicId();
+        client->clearUndeliveredPublish();
 
         /* renew the TopicList */
         if (topics)
-- 
2.43.0


From 3100c5d8b529c336f3be3581d298bc4579c86c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 26/92] fix: a client which connected by another way was still
 reached by its former forwarder or address

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp         | 10 +++++++++-
 MQTTSNGateway/src/MQTTSNGWClientList.cpp     |  2 +-
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 12 ++++++++++--
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp      |  3 ++-
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index d62a4c7..3e21dd4 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -213,7 +213,15 @@ void Client::setKeepAlive(MQTTSNPacket* packet)
 void Client::setForwarder(Forwarder* forwarder)
 {
     _forwarder = forwarder;
-    _clientType = Ctype_Forwarded;
+
+    if (forwarder && _clientType == Ctype_Normal)
+    {
+        _clientType = Ctype_Forwarded;
+    }
+    else if (forwarder == nullptr && _clientType == Ctype_Forwarded)
+    {
+        _clientType = Ctype_Normal;
+    }
 }
 
 Forwarder* Client::getForwarder(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index b6bd4ec..5737bf3 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -277,7 +277,7 @@ Client* ClientList::getClient(SensorNetAddress* addr)
 
         while (client != nullptr)
         {
-            if (client->getSensorNetAddress()->isMatch(addr))
+            if (client->getForwarder() == nullptr && client->getSensorNetAddress()->isMatch(addr))
             {
                 _mutex.unlock();
                 return client;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 8fa7ecd..e9ada75 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -209,8 +209,15 @@ void ClientRecvTask::run()
                 }
                 else if (authentication)
                 {
-                    /* not in the list, or in it with another address */
-                    client = nullptr;
+                    if (client && client->getSensorNetAddress()->isMatch(&senderAddr))
+                    {
+                        client->setForwarder(nullptr);
+                    }
+                    else
+                    {
+                        /* not in the list, or in it with another address */
+                        client = nullptr;
+                    }
                 }
                 else
                 {
@@ -218,6 +225,7 @@ void ClientRecvTask::run()
                     {
                         /* Authentication is not required */
                         client->setClientAddress(&senderAddr);
+                        client->setForwarder(nullptr);
                     }
                     else
                     {
diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index a157747..18832dd 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -171,7 +171,8 @@ Client* Forwarder::getClient(WirelessNodeId* id)
     ForwarderElement* p = _headClient;
     while (p)
     {
-        if (*(p->_wirelessNodeId) == *id)
+        /* a client which has connected by another way since is not reached by this forwarder any more */
+        if (p->_client->getForwarder() == this && *(p->_wirelessNodeId) == *id)
         {
             cl = p->_client;
             break;
-- 
2.43.0


From 4682ccaf8f98f24cd5645089a78d3892f90325ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 27/92] fix: encapsulations shorter than their header or with a
 large packet were read and written beyond the buffers

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp     | 9 ++++++++-
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index e9ada75..5884da8 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -110,7 +110,14 @@ void ClientRecvTask::run()
 
                 /* get the packet from the encapsulation message */
                 MQTTSNGWEncapsulatedPacket encap;
-                encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                int headerLen = encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                delete packet;
+
+                if (headerLen == 0)
+                {
+                    WRITELOG("%s Forwarder(%s) sent an incorrect encapsulation.%s\n", ERRMSG_HEADER, fwd->getName(), ERRMSG_FOOTER);
+                    continue;
+                }
                 nodeId.setId(encap.getWirelessNodeId());
                 client = fwd->getClient(&nodeId);
                 packet = encap.getMQTTSNPacket();
diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index 24c2afe..9f7643c 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -94,7 +94,7 @@ MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket()
 
 int MQTTSNGWEncapsulatedPacket::unicast(SensorNetwork* network, SensorNetAddress* sendTo)
 {
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + 255];
     int len = serialize(buf);
     return network->unicast(buf, len, sendTo);
 }
@@ -122,6 +122,11 @@ int MQTTSNGWEncapsulatedPacket::desirialize(unsigned char* buf, unsigned short l
         _mqttsn = nullptr;
     }
 
+    if (len < 3 || buf[0] < 3 || buf[0] > len)
+    {
+        return 0;
+    }
+
     _ctrl = buf[2];
     _id.setId(buf + 3, buf[0] - 3);
 
@@ -160,7 +165,7 @@ char* MQTTSNGWEncapsulatedPacket::print(char* pbuf)
     char* ptr = pbuf;
     char** pptr = &pbuf;
 
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + 255];
     int len = serialize(buf);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
 
-- 
2.43.0


From 20b8bd9fe621f73051cb9bf08d216db3db0c058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 28/92] fix: the log of a client id longer than 64 characters,
 or of a forwarder's name, overran or left unterminated its buffer

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 5884da8..93fe839 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -286,17 +286,18 @@ void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
 
     if (id)
     {
-        if (id->cstring)
+        int len = id->cstring ? strlen(id->cstring) : id->lenstring.len;
+
+        if (len > MAX_CLIENTID_LENGTH)
         {
-            strncpy(cstr, id->cstring, strlen(id->cstring));
-            clientId = cstr;
+            len = MAX_CLIENTID_LENGTH;
         }
-        else
+        memset((void*) cstr, 0, sizeof(cstr));
+        if (len > 0)
         {
-            memset((void*) cstr, 0, id->lenstring.len + 1);
-            strncpy(cstr, id->lenstring.data, id->lenstring.len);
-            clientId = cstr;
+            strncpy(cstr, id->cstring ? id->cstring : id->lenstring.data, len);
         }
+        clientId = cstr;
     }
     else if (client)
     {
-- 
2.43.0


From 55954e693b4940f699d781c0f6c1d383abfe369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 29/92] fix: packets whose length is not that of the datagram,
 or too short for their type, and names with NUL were processed

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp |  8 ++-
 MQTTSNGateway/src/MQTTSNGWPacket.cpp         | 62 ++++++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWPacket.h           |  1 +
 3 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 93fe839..0fc5f34 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -74,7 +74,7 @@ void ClientRecvTask::run()
             return;
         }
 
-        if (packetLen < 2)
+        if (packetLen < 2 || !packet->isWellFormed())
         {
             delete packet;
             continue;
@@ -121,6 +121,12 @@ void ClientRecvTask::run()
                 nodeId.setId(encap.getWirelessNodeId());
                 client = fwd->getClient(&nodeId);
                 packet = encap.getMQTTSNPacket();
+
+                if (!packet->isWellFormed())
+                {
+                    delete packet;
+                    continue;
+                }
             }
         }
         else
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 40eb846..56d2c9e 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -126,6 +126,68 @@ bool MQTTSNPacket::isQoSMinusPUBLISH(void)
     return ((_buf[p] == MQTTSN_PUBLISH) && ((_buf[p + 1] & 0x60) == 0x60));
 }
 
+/*
+ *  Is the received packet as long as its length field says, long enough for its type,
+ *  and free of NUL characters in a client id or topic name ?
+ */
+bool MQTTSNPacket::isWellFormed(void)
+{
+    int length = 0;
+    int minLength = 0;
+    int string = -1;
+    int p = MQTTSNPacket_decode(_buf, _bufLen, &length);
+
+    if (p <= 0 || length <= p || length > _bufLen)
+    {
+        return false;
+    }
+
+    switch (_buf[p])
+    {
+    case MQTTSN_ENCAPSULATED:
+        /* the length is that of the header only */
+        return p == 1 && length >= 3;
+    case MQTTSN_SEARCHGW:
+        minLength = 1;
+        break;
+    case MQTTSN_CONNECT:
+    case MQTTSN_REGISTER:
+        minLength = string = 4;
+        break;
+    case MQTTSN_WILLTOPIC:
+    case MQTTSN_WILLTOPICUPD:
+        string = 1;
+        break;
+    case MQTTSN_REGACK:
+    case MQTTSN_PUBLISH:
+    case MQTTSN_PUBACK:
+        minLength = 5;
+        break;
+    case MQTTSN_PUBREC:
+    case MQTTSN_PUBREL:
+    case MQTTSN_PUBCOMP:
+        minLength = 2;
+        break;
+    case MQTTSN_SUBSCRIBE:
+    case MQTTSN_UNSUBSCRIBE:
+        minLength = 3;
+        if (length > p + 1 && (_buf[p + 1] & 0x03) == MQTTSN_TOPIC_TYPE_NORMAL)
+        {
+            string = 3;
+        }
+        break;
+    default:
+        break;
+    }
+
+    if (length != _bufLen || length - p - 1 < minLength)
+    {
+        return false;
+    }
+    int stringLen = string < 0 ? 0 : length - p - 1 - string;
+    return stringLen <= 0 || memchr(_buf + p + 1 + string, 0, stringLen) == nullptr;
+}
+
 unsigned char* MQTTSNPacket::getPacketData(void)
 {
     return _buf;
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 4ac3007..15e8adc 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -90,6 +90,7 @@ public:
     bool isAccepted(void);
     bool isDuplicate(void);
     bool isQoSMinusPUBLISH(void);
+    bool isWellFormed(void);
     char* getMsgId(char* buf);
     int getMsgId(void);
     void setMsgId(uint16_t msgId);
-- 
2.43.0


From a032cd3f3da6b2ba211b053f304073b849c59612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 30/92] fix: packets with the reserved topic type were
 processed

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 56d2c9e..4c4124c 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -128,7 +128,7 @@ bool MQTTSNPacket::isQoSMinusPUBLISH(void)
 
 /*
  *  Is the received packet as long as its length field says, long enough for its type,
- *  and free of NUL characters in a client id or topic name ?
+ *  of a topic type there is, and free of NUL characters in a client id or topic name ?
  */
 bool MQTTSNPacket::isWellFormed(void)
 {
@@ -184,6 +184,10 @@ bool MQTTSNPacket::isWellFormed(void)
     {
         return false;
     }
+    if ((_buf[p] == MQTTSN_PUBLISH || _buf[p] == MQTTSN_SUBSCRIBE || _buf[p] == MQTTSN_UNSUBSCRIBE) && (_buf[p + 1] & 0x03) == 0x03)
+    {
+        return false;
+    }
     int stringLen = string < 0 ? 0 : length - p - 1 - string;
     return stringLen <= 0 || memchr(_buf + p + 1 + string, 0, stringLen) == nullptr;
 }
-- 
2.43.0


From 9f1026736fa41416aef322c7a6f1ef533583ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 31/92] fix: a QoS -1 PUBLISH with a topic name was taken for
 one with an unset topic id

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 40e320a..5ba296d 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -79,6 +79,12 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
         pub.topic = shortTopic;
         pub.topiclen = 2;
     }
+    else if (topicid.type == MQTTSN_TOPIC_TYPE_NORMAL && qos == 3)
+    {
+        /* a topic name instead of a topic id, topicid.data.id is not set */
+        WRITELOG("%s Invalid TopicId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+        return nullptr;
+    }
     else
     {
         topic = client->getTopics()->getTopicById(&topicid);
-- 
2.43.0


From bdfb560ff82d58961aa10b48ca0f92bb1d25ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 32/92] fix: a PUBLISH with the topic id of a subscribed filter
 was forwarded with the filter as topic name

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 5ba296d..788838a 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -97,6 +97,12 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             }
         }
 
+        if (topic && topic->getTopicName()->find_first_of("+#") != string::npos)
+        {
+            /* a filter the client has subscribed to, nothing can be published to it */
+            topic = nullptr;
+        }
+
         if (!topic && qos == 3)
         {
             WRITELOG("%s Invalid TopicId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
-- 
2.43.0


From 7bac2fc1d454304999b906ee30d65afc80fd71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 33/92] fix: wildcards were searched for beyond the end of a
 topic name

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 9d650bd..6c2e803 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -407,7 +407,9 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)
+        /* the name is not terminated by NUL */
+        size_t len = strnlen(topic->data.long_.name, topic->data.long_.len);
+        if (memchr(topic->data.long_.name, '#', len) != 0 || memchr(topic->data.long_.name, '+', len) != 0)
         {
             _wildcard = 1;
         }
-- 
2.43.0


From 309e09a0a4aaec66efcb1a95f6513d8d273f9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 34/92] fix: short topic names with NUL were subscribed to cut
 off

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 4c4124c..f969d71 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -171,7 +171,7 @@ bool MQTTSNPacket::isWellFormed(void)
     case MQTTSN_SUBSCRIBE:
     case MQTTSN_UNSUBSCRIBE:
         minLength = 3;
-        if (length > p + 1 && (_buf[p + 1] & 0x03) == MQTTSN_TOPIC_TYPE_NORMAL)
+        if (length > p + 1 && (_buf[p + 1] & 0x03) != MQTTSN_TOPIC_TYPE_PREDEFINED)
         {
             string = 3;
         }
-- 
2.43.0


From f4f53d0dfed688210bb1bab6842ee33f5bb167a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 35/92] fix: a CONNECT of another protocol from a sleeping
 client was discarded but made it active

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index f969d71..ba75e9b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -151,6 +151,12 @@ bool MQTTSNPacket::isWellFormed(void)
         minLength = 1;
         break;
     case MQTTSN_CONNECT:
+        if (length > p + 2 && _buf[p + 2] != 1)
+        {
+            return false;    /* another protocol than MQTT-SN 1.2 */
+        }
+        minLength = string = 4;
+        break;
     case MQTTSN_REGISTER:
         minLength = string = 4;
         break;
-- 
2.43.0


From d17a94dcf45064ff29fbb45742069702b2654f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 36/92] fix: a will message with a NUL byte reached the broker
 cut off

---
 MQTTSNGateway/src/MQTTGWPacket.cpp              | 6 ++++--
 MQTTSNGateway/src/MQTTGWPacket.h                | 3 ++-
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 921bcee..51cb94b 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -312,7 +312,7 @@ int MQTTGWPacket::setCONNECT(Connect* connect, unsigned char* username, unsigned
     _remainingLength = ((connect->version == 3) ? 12 : 10) + (int) strlen(connect->clientID) + 2;
     if (connect->flags.bits.will)
     {
-        _remainingLength += (int) strlen(connect->willTopic) + 2 + (int) strlen(connect->willMsg) + 2;
+        _remainingLength += (int) strlen(connect->willTopic) + 2 + connect->willMsgLen + 2;
     }
     if (connect->flags.bits.username)
     {
@@ -347,7 +347,9 @@ int MQTTGWPacket::setCONNECT(Connect* connect, unsigned char* username, unsigned
     if (connect->flags.bits.will)
     {
         writeUTF(&ptr, connect->willTopic);
-        writeUTF(&ptr, connect->willMsg);
+        writeInt(&ptr, connect->willMsgLen);
+        memcpy(ptr, connect->willMsg, connect->willMsgLen);
+        ptr += connect->willMsgLen;
     }
 
     if (connect->flags.bits.username)
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 46df326..5c3923b 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -125,9 +125,10 @@ typedef struct
 
     int keepAliveTimer; /**< keepalive timeout value in seconds */
     unsigned char version; /**< MQTT version number */
+    int willMsgLen; /**< length of the will payload, which may contain any byte */
 } Connect;
 
-#define MQTTPacket_Connect_Initializer {{0}, {0}, nullptr, nullptr, nullptr, nullptr, 0, 0}
+#define MQTTPacket_Connect_Initializer {{0}, {0}, nullptr, nullptr, nullptr, nullptr, 0, 0, 0}
 #define MQTTPacket_willOptions_initializer { {'M', 'Q', 'T', 'W'}, 0, {NULL, {0, NULL}}, {NULL, {0, NULL}}, 0, 0 }
 #define MQTTPacket_connectData_initializer { {'M', 'Q', 'T', 'C'}, 0, 4, {NULL, {0, NULL}}, 60, 1, 0, \
         MQTTPacket_willOptions_initializer, {NULL, {0, NULL}}, {NULL, {0, NULL}} }
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 02b8763..5be3d02 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -220,6 +220,7 @@ void MQTTSNConnectionHandler::handleWillmsg(Client* client, MQTTSNPacket* packet
         /* create CONNECT message */
         MQTTGWPacket* mqttPacket = new MQTTGWPacket();
         connectData->willMsg = client->getWillMsg();
+        connectData->willMsgLen = MQTTSNstrlen(willmsg);
         mqttPacket->setCONNECT(connectData, (unsigned char*) _gateway->getGWParams()->loginId,
                 (unsigned char*) _gateway->getGWParams()->password);
 
-- 
2.43.0


From 82350b87f865c802665f436b0360afd3c5a0805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 37/92] fix: packets of the broker which arrived in pieces were
 dropped with their connection

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 34 +++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 51cb94b..44d4f4f 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -180,6 +180,24 @@ MQTTGWPacket::~MQTTGWPacket()
     }
 }
 
+/*
+ *  Receive length bytes, however the stream is split. Returns 0 if the connection was closed, -1 on an error
+ */
+static int recvAll(Network* network, unsigned char* buf, int length)
+{
+    int pos = 0;
+    while (pos < length)
+    {
+        int rc = network->recv(buf + pos, length - pos > 0x7fff ? 0x7fff : length - pos);
+        if (rc <= 0)
+        {
+            return rc;
+        }
+        pos += rc;
+    }
+    return pos;
+}
+
 int MQTTGWPacket::recv(Network* network)
 {
     int len = 0;
@@ -199,9 +217,10 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        if (network->recv(&c, 1) == -1)
+        rc = recvAll(network, &c, 1);
+        if (rc <= 0)
         {
-            return -1;
+            return rc;
         }
         _remainingLength += (c & 127) * multiplier;
         multiplier *= 128;
@@ -218,15 +237,10 @@ int MQTTGWPacket::recv(Network* network)
         }
 
         /* read Payload */
-        int remlen = network->recv(_data, _remainingLength);
-
-        if (remlen == -1)
+        rc = recvAll(network, _data, _remainingLength);
+        if (rc <= 0)
         {
-            return -1;
-        }
-        else if (remlen != _remainingLength)
-        {
-            return -2;
+            return rc;
         }
     }
     return 1 + len + _remainingLength;
-- 
2.43.0


From f809ca24f46158882dfa39235148bef1b9f8bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 38/92] fix: packets of the broker which are too short for
 their type were read beyond their end

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 45 +++++++++++++++++++++++++++++-
 MQTTSNGateway/src/MQTTGWPacket.h   |  1 +
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 44d4f4f..c456c86 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -243,7 +243,50 @@ int MQTTGWPacket::recv(Network* network)
             return rc;
         }
     }
-    return 1 + len + _remainingLength;
+    return isWellFormed() ? 1 + len + _remainingLength : -2;
+}
+
+/*
+ *  Is the received packet long enough for its type ?
+ */
+bool MQTTGWPacket::isWellFormed(void)
+{
+    int minLength = 0;
+
+    switch (getType())
+    {
+    case CONNACK:
+    case PUBACK:
+    case PUBREC:
+    case PUBREL:
+    case PUBCOMP:
+    case UNSUBACK:
+        minLength = 2;
+        break;
+    case SUBACK:
+        minLength = 3;
+        break;
+    case PUBLISH:
+        minLength = _header.bits.qos > 0 ? 5 : 3;
+        if (_header.bits.qos == 3)
+        {
+            return false;
+        }
+        if (_remainingLength >= minLength)
+        {
+            char* ptr = (char*) _data;
+            int topiclen = readInt(&ptr);
+            if (topiclen == 0)
+            {
+                return false;
+            }
+            minLength += topiclen - 1;
+        }
+        break;
+    default:
+        break;
+    }
+    return _remainingLength >= minLength;
 }
 
 int MQTTGWPacket::send(Network* network)
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 5c3923b..8b2a178 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -241,6 +241,7 @@ public:
 
 private:
     void clearData(void);
+    bool isWellFormed(void);
     Header _header;
     int _remainingLength;
     unsigned char* _data;
-- 
2.43.0


From 66b5bdf454aef10a96c85fb3ae3d8cb1bc1403ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 39/92] fix: packets for or from the broker larger than an
 MQTT-SN packet overran buffers on the stack

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index c456c86..e6d4d7d 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -291,11 +291,10 @@ bool MQTTGWPacket::isWellFormed(void)
 
 int MQTTGWPacket::send(Network* network)
 {
-    unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
-    memset(buf, 0, MQTTSNGW_MAX_PACKET_SIZE);
-    int len = getPacketData(buf);
-    return network->send(buf, len);
-
+    /* the packet may be larger than the MQTT-SN packet it was made of */
+    std::string buf(getPacketLength(), 0);
+    int len = getPacketData((unsigned char*) &buf[0]);
+    return network->send((const uint8_t*) buf.data(), len);
 }
 
 int MQTTGWPacket::getAck(Ack* ack)
@@ -550,6 +549,7 @@ void MQTTGWPacket::clearData(void)
     if (_data)
     {
         free(_data);
+        _data = 0;
     }
     _header.byte = 0;
     _remainingLength = 0;
@@ -661,10 +661,11 @@ void MQTTGWPacket::setMsgId(int msgId)
 
 char* MQTTGWPacket::print(char* pbuf)
 {
-    uint8_t packetData[MQTTSNGW_MAX_PACKET_SIZE];
+    std::string buf(getPacketLength(), 0);
+    const uint8_t* packetData = (const uint8_t*) buf.data();
     char* ptr = pbuf;
     char** pptr = &pbuf;
-    int len = getPacketData(packetData);
+    int len = getPacketData((unsigned char*) &buf[0]);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
     for (int i = 0; i < size; i++)
     {
-- 
2.43.0


From 7add969dcd31d00c44f913f886fe25c3d17546de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 40/92] fix: messages too large for an MQTT-SN packet were
 given to the client as arbitrary memory

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 79bdc23..8e058e0 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -44,12 +44,28 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         return;
     }
 
+    Publish pub;
+    packet->getPUBLISH(&pub);
+
+    /* PUBLISH and REGISTER have headers of up to 9 and 8 bytes */
+    if (pub.payloadlen + 9 > MQTTSNGW_MAX_PACKET_SIZE || pub.topiclen + 8 > MQTTSNGW_MAX_PACKET_SIZE)
+    {
+        WRITELOG("%sMQTTGWPublishHandler PUBLISH message is too large for MQTT-SN. It is discarded.%s\n",
+        ERRMSG_HEADER, ERRMSG_FOOTER);
+        if (pub.header.bits.qos == 1)
+        {
+            replyACK(client, &pub, PUBACK);
+        }
+        else if (pub.header.bits.qos == 2)
+        {
+            replyACK(client, &pub, PUBREC);
+        }
+        return;
+    }
+
     /* client is sleeping. save PUBLISH */
     if (client->isSleep())
     {
-        Publish pub;
-        packet->getPUBLISH(&pub);
-
         WRITELOG(FORMAT_Y_G_G, currentDateTime(), packet->getName(),
         RIGHTARROW, client->getClientId(), "is sleeping. a message was saved.");
 
@@ -75,9 +91,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         return;
     }
 
-    Publish pub;
-    packet->getPUBLISH(&pub);
-
     MQTTSNPacket* snPacket = new MQTTSNPacket();
 
     /* create MQTTSN_topicid */
-- 
2.43.0


From f25bdb0d8ecbd17879819268f477cca157ba9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 41/92] fix: topic names of one character were delivered with a
 second one

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 8e058e0..d1d4acb 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -97,7 +97,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     MQTTSN_topicid topicId;
     uint16_t id = 0;
 
-    if (pub.topiclen <= 2)
+    if (pub.topiclen == 2)
     {
         topicId.type = MQTTSN_TOPIC_TYPE_SHORT;
         *(topicId.data.short_name) = *pub.topic;
-- 
2.43.0


From 23c81a716ac08f3b4c598e1e639312809d2a11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 42/92] fix: a topic name with NUL from the broker was taken
 for the part before it

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index e6d4d7d..8e5946e 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -276,11 +276,11 @@ bool MQTTGWPacket::isWellFormed(void)
         {
             char* ptr = (char*) _data;
             int topiclen = readInt(&ptr);
-            if (topiclen == 0)
+            minLength += topiclen - 1;
+            if (topiclen == 0 || (_remainingLength >= minLength && memchr(ptr, 0, topiclen)))
             {
                 return false;
             }
-            minLength += topiclen - 1;
         }
         break;
     default:
-- 
2.43.0


From 7920ca5e75cf367148fc9763df0ac16767b2be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 43/92] fix: a packet for a lost broker connection opened a new
 one without CONNECT

---
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
index e061d0c..546d763 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
@@ -88,6 +88,16 @@ void BrokerSendTask::run()
                 client->getNetwork()->close();
             }
 
+            if (!client->getNetwork()->isValid() && packet->getType() != CONNECT)
+            {
+                /* the connection was lost, only CONNECT opens a new one */
+                WRITELOG("%s BrokerSendTask: %s has no connection to the broker. %s is discarded.%s\n",
+                ERRMSG_HEADER, client->getClientId(), packet->getName(), ERRMSG_FOOTER);
+                client->disconnected();
+                delete ev;
+                continue;
+            }
+
             if (!client->getNetwork()->isValid())
             {
                 /* connect to the broker and send a packet */
-- 
2.43.0


From 5847efbd8928c8b3ae3562faf6abf4bad6ee67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 44/92] fix: a client whose CONNACK arrived at once was taken
 for still connecting

---
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
index 546d763..e3d5ec3 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
@@ -126,13 +126,13 @@ void BrokerSendTask::run()
 
             /* send a packet */
             _light->blueLight(true);
+            if (packet->getType() == CONNECT)
+            {
+                client->connectSended(); // before the CONNACK can arrive
+            }
             if ((rc = packet->send(client->getNetwork())) > 0)
             {
-                if (packet->getType() == CONNECT)
-                {
-                    client->connectSended();
-                }
-                else if (packet->getType() == DISCONNECT)
+                if (packet->getType() == DISCONNECT)
                 {
                     client->getNetwork()->close();
                     client->disconnected();
-- 
2.43.0


From facf042e7812881483fa9d7ff0de2362bf5fed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 45/92] fix: the end of a broker connection was taken for the
 end of its successor

---
 MQTTSNGateway/src/MQTTGWPacket.cpp           | 12 +++---
 MQTTSNGateway/src/MQTTGWPacket.h             |  2 +-
 MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp |  9 ++--
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp | 19 +++------
 MQTTSNGateway/src/MQTTSNGWClient.cpp         | 14 +++++++
 MQTTSNGateway/src/MQTTSNGWClient.h           |  2 +
 MQTTSNGateway/src/linux/Network.cpp          | 44 ++++++++++++++++++--
 MQTTSNGateway/src/linux/Network.h            |  6 ++-
 8 files changed, 76 insertions(+), 32 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 8e5946e..654afde 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -183,12 +183,12 @@ MQTTGWPacket::~MQTTGWPacket()
 /*
  *  Receive length bytes, however the stream is split. Returns 0 if the connection was closed, -1 on an error
  */
-static int recvAll(Network* network, unsigned char* buf, int length)
+static int recvAll(Network* network, int connectionNo, unsigned char* buf, int length)
 {
     int pos = 0;
     while (pos < length)
     {
-        int rc = network->recv(buf + pos, length - pos > 0x7fff ? 0x7fff : length - pos);
+        int rc = network->recv(buf + pos, length - pos > 0x7fff ? 0x7fff : length - pos, connectionNo);
         if (rc <= 0)
         {
             return rc;
@@ -198,14 +198,14 @@ static int recvAll(Network* network, unsigned char* buf, int length)
     return pos;
 }
 
-int MQTTGWPacket::recv(Network* network)
+int MQTTGWPacket::recv(Network* network, int connectionNo)
 {
     int len = 0;
     int multiplier = 1;
     unsigned char c;
 
     /* read First Byte of Packet */
-    int rc = network->recv((unsigned char*) &_header.byte, 1);
+    int rc = network->recv((unsigned char*) &_header.byte, 1, connectionNo);
     if (rc <= 0)
     {
         return rc;
@@ -217,7 +217,7 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        rc = recvAll(network, &c, 1);
+        rc = recvAll(network, connectionNo, &c, 1);
         if (rc <= 0)
         {
             return rc;
@@ -237,7 +237,7 @@ int MQTTGWPacket::recv(Network* network)
         }
 
         /* read Payload */
-        rc = recvAll(network, _data, _remainingLength);
+        rc = recvAll(network, connectionNo, _data, _remainingLength);
         if (rc <= 0)
         {
             return rc;
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 8b2a178..c2f9237 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -211,7 +211,7 @@ class MQTTGWPacket
 public:
     MQTTGWPacket();
     ~MQTTGWPacket();
-    int recv(Network* network);
+    int recv(Network* network, int connectionNo);
     int send(Network* network);
     int getType(void);
     int getPacketData(unsigned char* buf);
diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
index 82f9b9a..6d5d553 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
@@ -116,9 +116,10 @@ void BrokerRecvTask::run(void)
                         {
                             packet = new MQTTGWPacket();
                             rc = 0;
+                            int connectionNo = client->getNetwork()->getConnectionNo();
                             /* read sockets */
                             _light->blueLight(true);
-                            rc = packet->recv(client->getNetwork());
+                            rc = packet->recv(client->getNetwork(), connectionNo);
                             if (rc > 0)
                             {
                                 if (log(client, packet) == -1)
@@ -139,8 +140,7 @@ void BrokerRecvTask::run(void)
                                     WRITELOG("%s BrokerRecvTask %s is disconnected by the broker.%s\n",
                                     ERRMSG_HEADER, client->getClientId(),
                                     ERRMSG_FOOTER);
-                                    client->getNetwork()->close();
-                                    client->disconnected();
+                                    client->closeConnection(connectionNo);
                                 }
                                 else if (rc == -1)
                                 {
@@ -166,8 +166,7 @@ void BrokerRecvTask::run(void)
 
                                 if (rc == -1 || rc == -2)
                                 {
-                                    client->getNetwork()->close();
-                                    client->disconnected();
+                                    client->closeConnection(connectionNo);
                                 }
                             }
                         }
diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
index e3d5ec3..3a05295 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
@@ -83,9 +83,9 @@ void BrokerSendTask::run()
             /* Check Client is managed by Adapters */
             client = adpMgr->getClient(client);
 
-            if (packet->getType() == CONNECT && client->getNetwork()->isValid())
+            if (packet->getType() == CONNECT)
             {
-                client->getNetwork()->close();
+                client->closeConnection(client->getNetwork()->getConnectionNo());
             }
 
             if (!client->getNetwork()->isValid() && packet->getType() != CONNECT)
@@ -125,6 +125,7 @@ void BrokerSendTask::run()
             }
 
             /* send a packet */
+            int connectionNo = client->getNetwork()->getConnectionNo();
             _light->blueLight(true);
             if (packet->getType() == CONNECT)
             {
@@ -134,8 +135,7 @@ void BrokerSendTask::run()
             {
                 if (packet->getType() == DISCONNECT)
                 {
-                    client->getNetwork()->close();
-                    client->disconnected();
+                    client->closeConnection(connectionNo);
                 }
                 log(client, packet);
             }
@@ -143,17 +143,8 @@ void BrokerSendTask::run()
             {
                 WRITELOG("%s BrokerSendTask: %s can't send a packet to the broker. errno=%d %s %s\n",
                 ERRMSG_HEADER, client->getClientId(), rc == -1 ? errno : 0, strerror(errno), ERRMSG_FOOTER);
-                if ( errno != EBADF)
-                {
-                    client->getNetwork()->close();
-                }
-
                 /* Disconnect the client */
-                packet = new MQTTGWPacket();
-                packet->setHeader(DISCONNECT);
-                Event* ev1 = new Event();
-                ev1->setBrokerRecvEvent(client, packet);
-                _gateway->getPacketEventQue()->post(ev1);
+                client->closeConnection(connectionNo);
             }
 
             _light->blueLight(false);
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 3e21dd4..8100a84 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -338,6 +338,20 @@ void Client::disconnected(void)
     _waitWillMsgFlg = false;
 }
 
+/*
+ *  Close the connection to the broker, unless it has been closed and replaced by another one meanwhile.
+ */
+void Client::closeConnection(int connectionNo)
+{
+    _networkMutex.lock();
+    if (_network->isValid() && _network->getConnectionNo() == connectionNo)
+    {
+        disconnected();    // before the network gets free for the next connection
+        _network->close();
+    }
+    _networkMutex.unlock();
+}
+
 void Client::tryConnect(void)
 {
     _status = Cstat_TryConnecting;
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 374ba44..f67b331 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -210,6 +210,7 @@ public:
     void connectSended(void);
     void connackSended(int rc);
     void disconnected(void);
+    void closeConnection(int connectionNo);
     bool isConnectSendable(void);
     void tryConnect(void);
     ClientStatus getClientStatus(void);
@@ -297,6 +298,7 @@ private:
     uint8_t _snMsgId;
 
     Network* _network;      // Broker
+    Mutex _networkMutex;
     bool _secureNetwork;    // SSL
     bool _sensorNetype;     // false: unstable network like a G3
     SensorNetAddress _sensorNetAddr;
diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index c4c5a52..ddb0339 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -40,6 +40,7 @@ TCPStack::TCPStack()
 {
 	_addrinfo = 0;
 	_sockfd = 0;
+	_connectionNo = 0;
 }
 
 TCPStack::~TCPStack()
@@ -62,6 +63,7 @@ void TCPStack::close()
 	{
 		::close(_sockfd);
 		_sockfd = 0;
+		_connectionNo++;
 		if (_addrinfo)
 		{
 			freeaddrinfo(_addrinfo);
@@ -152,9 +154,38 @@ int TCPStack::send(const uint8_t* buf, int length)
 #endif
 }
 
-int TCPStack::recv(uint8_t* buf, int len)
+/*
+ *  Receive from the connection of the number, and never from another one which has replaced it.
+ */
+int TCPStack::recv(uint8_t* buf, int len, int connectionNo)
 {
-	return ::recv(_sockfd, buf, len, 0);
+	while (true)
+	{
+		_mutex.lock();
+		int sockfd = _sockfd;
+		if (sockfd <= 0 || _connectionNo != connectionNo)
+		{
+			_mutex.unlock();
+			errno = EBADF;
+			return -1;
+		}
+		int rc = ::recv(sockfd, buf, len, MSG_DONTWAIT);
+		int err = errno;
+		_mutex.unlock();
+
+		if (rc >= 0 || (err != EAGAIN && err != EWOULDBLOCK && err != EINTR))
+		{
+			errno = err;
+			return rc;
+		}
+
+		/* wait for the rest of the packet */
+		timeval timeout = { 0, 500000 };
+		fd_set rset;
+		FD_ZERO(&rset);
+		FD_SET(sockfd, &rset);
+		select(sockfd + 1, &rset, 0, 0, &timeout);
+	}
 }
 
 bool TCPStack::connect(const char* host, const char* service)
@@ -231,6 +262,11 @@ int TCPStack::getSock()
 	return _sockfd;
 }
 
+int TCPStack::getConnectionNo()
+{
+	return _connectionNo;
+}
+
 /*========================================
  Class Network
  =======================================*/
@@ -492,7 +528,7 @@ int Network::send(const uint8_t* buf, uint16_t length)
 	}
 }
 
-int Network::recv(uint8_t* buf, uint16_t len)
+int Network::recv(uint8_t* buf, uint16_t len, int connectionNo)
 {
 	char errmsg[256];
 	bool writeBlockedOnRead = false;
@@ -505,7 +541,7 @@ int Network::recv(uint8_t* buf, uint16_t len)
 
 	if (!_secureFlg)
 	{
-		return TCPStack::recv(buf, len);
+		return TCPStack::recv(buf, len, connectionNo);
 	}
 
 	if (_busy)
diff --git a/MQTTSNGateway/src/linux/Network.h b/MQTTSNGateway/src/linux/Network.h
index f2fab7b..f974966 100644
--- a/MQTTSNGateway/src/linux/Network.h
+++ b/MQTTSNGateway/src/linux/Network.h
@@ -48,16 +48,18 @@ public:
 	bool connect(const char* host, const char* service);
 
 	int send(const uint8_t* buf, int length);
-	int recv(uint8_t* buf, int len);
+	int recv(uint8_t* buf, int len, int connectionNo);
 	void close();
 
 	void setNonBlocking(const bool);
 
 	bool isValid();
 	int getSock();
+	int getConnectionNo();
 
 private:
 	int _sockfd;
+	int _connectionNo;     // changes whenever a connection is closed
 	addrinfo* _addrinfo;
 	Mutex _mutex;
 };
@@ -75,7 +77,7 @@ public:
 	bool connect(const char* host, const char* port);
 	void close(void);
 	int  send(const uint8_t* buf, uint16_t length);
-	int  recv(uint8_t* buf, uint16_t len);
+	int  recv(uint8_t* buf, uint16_t len, int connectionNo);
 
 	bool isValid(void);
 	bool isSecure(void);
-- 
2.43.0


From e0c7d7340c320dceed792856570e9ed6b0f5deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 46/92] fix: messages stored for a sleeping client were
 overtaken by newer ones when it woke up

---
 .../src/MQTTSNGWConnectionHandler.cpp         | 27 ++----------------
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.h |  2 --
 .../src/MQTTSNGWPacketHandleTask.cpp          | 28 ++++++++++++++++---
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h  |  1 +
 4 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 5be3d02..4a68bac 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -83,7 +83,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
 
-        sendStoredPublish(client);
+        /* PacketHandleTask sends the stored PUBLISHes */
         return;
     }
 
@@ -291,15 +291,8 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
 {
     if ((client->isSleep() || client->isAwake()) && client->getClientSleepPacket())
     {
-        sendStoredPublish(client);
+        /* PacketHandleTask sends the stored PUBLISHes, see also handleStoredPublishSent() */
         client->holdPingRequest();
-
-        /* an event behind the stored PUBLISHes to conclude the wake-up, see handleStoredPublishSent() */
-        MQTTGWPacket* mark = new MQTTGWPacket();
-        mark->setHeader(PINGREQ);
-        Event* evt = new Event();
-        evt->setBrokerRecvEvent(client, mark);
-        _gateway->getPacketEventQue()->post(evt);
     }
     else
     {
@@ -314,7 +307,7 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
 }
 
 /*
- *  The stored PUBLISHes have been handled. Send the held PINGREQ to the broker
+ *  The stored PUBLISHes have been sent. Send the held PINGREQ to the broker
  *  unless a REGACK is awaited.
  */
 void MQTTSNConnectionHandler::handleStoredPublishSent(Client* client)
@@ -330,17 +323,3 @@ void MQTTSNConnectionHandler::handleStoredPublishSent(Client* client)
     }
 }
 
-void MQTTSNConnectionHandler::sendStoredPublish(Client* client)
-{
-    MQTTGWPacket* msg = nullptr;
-
-    while ((msg = client->getClientSleepPacket()) != nullptr)
-    {
-        // ToDo:  This version can't re-send PUBLISH when PUBACK is not returned.
-        client->deleteFirstClientSleepPacket(); // pop the que to delete element.
-
-        Event* ev = new Event();
-        ev->setBrokerRecvEvent(client, msg);
-        _gateway->getPacketEventQue()->post(ev);
-    }
-}
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
index 255c068..7b55e78 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
@@ -38,8 +38,6 @@ public:
     void handlePingreq(Client* client, MQTTSNPacket* packet);
     void handleStoredPublishSent(Client* client);
 private:
-    void sendStoredPublish(Client* client);
-
     Gateway* _gateway;
 };
 
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 7199b1d..c4002f5 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -148,7 +148,8 @@ void PacketHandleTask::run()
 
             DEBUGLOG("     PacketHandleTask gets %s %s from the client.\n", snPacket->getName(), snPacket->getMsgId(msgId));
 
-            if (adpMgr->isAggregatedClient(client))
+            bool aggregated = adpMgr->isAggregatedClient(client);
+            if (aggregated)
             {
                 aggregatePacketHandler(client, snPacket); // client is converted to Aggregater by BrokerSendTask
             }
@@ -159,6 +160,14 @@ void PacketHandleTask::run()
 
             /* Reset the Timer for PINGREQ. */
             client->updateStatus(snPacket);
+
+            /* The client got up. Send the stored PUBLISHes before any newer one. */
+            if (!aggregated
+                    && ((snPacket->getType() == MQTTSN_PINGREQ && client->isHoldPingReqest() && client->isAwake())
+                            || (snPacket->getType() == MQTTSN_CONNECT && client->isActive())))
+            {
+                sendStoredPublish(client);
+            }
         }
         /*------  Handle Messages form Broker      ---------*/
         else if (ev->getEventType() == EtBrokerRecv)
@@ -180,6 +189,20 @@ void PacketHandleTask::run()
     }
 }
 
+void PacketHandleTask::sendStoredPublish(Client* client)
+{
+    MQTTGWPacket* msg = nullptr;
+
+    while ((msg = client->getClientSleepPacket()) != nullptr)
+    {
+        // ToDo:  This version can't re-send PUBLISH when PUBACK is not returned.
+        client->deleteFirstClientSleepPacket(); // pop the que to delete element.
+        _mqttPublish->handlePublish(client, msg);
+        delete msg;
+    }
+    _mqttsnConnection->handleStoredPublishSent(client);
+}
+
 void PacketHandleTask::aggregatePacketHandler(Client*client, MQTTSNPacket* packet)
 {
     switch (packet->getType())
@@ -361,9 +384,6 @@ void PacketHandleTask::transparentPacketHandler(Client*client, MQTTGWPacket* pac
     case UNSUBACK:
         _mqttSubscribe->handleUnsuback(client, packet);
         break;
-    case PINGREQ:
-        _mqttsnConnection->handleStoredPublishSent(client); // posted by the gateway itself, not by the broker
-        break;
     case DISCONNECT:
         client->disconnected(); // Just change Client's status to "Disconnected"
         break;
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
index 43cc57e..452c946 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
@@ -57,6 +57,7 @@ public:
 private:
     void aggregatePacketHandler(Client*client, MQTTSNPacket* packet);
     void aggregatePacketHandler(Client*client, MQTTGWPacket* packet);
+    void sendStoredPublish(Client* client);
     void transparentPacketHandler(Client*client, MQTTSNPacket* packet);
     void transparentPacketHandler(Client*client, MQTTGWPacket* packet);
 
-- 
2.43.0


From 6aef5382d601338c5c1119ee3534dbcbf837ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 47/92] fix: the gateway crashed at start with QoS-1=YES or
 AggregatingGateway=YES

The adapters take their clients from the pool, which was allocated after
them. Allocate the pool before the adapters are initialized.
---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 5 ++++-
 MQTTSNGateway/src/MQTTSNGWClientList.h   | 1 +
 MQTTSNGateway/src/MQTTSNGateway.cpp      | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 5737bf3..a9f6161 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -56,11 +56,14 @@ ClientList::~ClientList()
     _mutex.unlock();
 }
 
-void ClientList::initialize(bool aggregate)
+void ClientList::allocateClients(void)
 {
     _maxClients = _gateway->getGWParams()->maxClients;
     _clientsPool->allocate(_gateway->getGWParams()->maxClients);
+}
 
+void ClientList::initialize(bool aggregate)
+{
     if (_gateway->getGWParams()->clientAuthentication)
     {
         int type = TRANSPEARENT_TYPE;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.h b/MQTTSNGateway/src/MQTTSNGWClientList.h
index 4cb2ca3..7c437cc 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.h
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.h
@@ -57,6 +57,7 @@ public:
 	ClientList(Gateway* gw);
     ~ClientList();
 
+    void allocateClients(void);
     void initialize(bool aggregate);
     void setClientList(int type);
     void setPredefinedTopics(bool aggregate);
diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index d672268..3d1183a 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -303,6 +303,9 @@ void Gateway::initialize(int argc, char** argv)
     /*  Setup max PacketEventQue size  */
     _packetEventQue.setMaxSize(_params.maxInflightMsgs * _params.maxClients);
 
+    /*  Allocate Clients, adapters need some of them  */
+    _clientList->allocateClients();
+
     /*  Initialize adapters */
     _adapterManager->initialize(_params.gatewayName, _params.aggregatingGw, _params.forwarder, _params.qosMinus1);
 
-- 
2.43.0


From 76cc3d1e63f2e7b6a7ee9462760e60ad3df1088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 48/92] fix: predefined topics of QoS -1 clients and their
 secureConnection were ignored

A PUBLISH of a QoS -1 client was looked up in the topics of the proxy's
client, not in its own. Use the sender's client; BrokerSendTask converts it
to the proxy. A PUBLISH is discarded while the proxy has no connection.
---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 0fc5f34..9caa5cd 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -139,7 +139,7 @@ void ClientRecvTask::run()
 
                 if (clientName != nullptr)
                 {
-                    client = qosm1Proxy->getClient();
+                    client = qosm1Proxy->getClient(&senderAddr); // client is converted to the proxy by BrokerSendTask
 
                     if (!packet->isQoSMinusPUBLISH())
                     {
@@ -149,6 +149,15 @@ void ClientRecvTask::run()
                         delete packet;
                         continue;
                     }
+
+                    if (qosm1Proxy->getAdapterClient(client)->isDisconnect())
+                    {
+                        log(clientName, packet);
+                        WRITELOG("%s MQTTSNGWClientRecvTask %s's proxy is not connecting.%s\n",
+                        ERRMSG_HEADER, clientName, ERRMSG_FOOTER);
+                        delete packet;
+                        continue;
+                    }
                 }
             }
 
@@ -166,7 +175,7 @@ void ClientRecvTask::run()
             bool willRequested = (packet->getType() == MQTTSN_WILLTOPIC && (client->isWaitWillTopic() || client->isWaitWillMsg()))
                     || (packet->getType() == MQTTSN_WILLMSG && client->isWaitWillMsg());
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !willRequested)
+            if (client->isDisconnect() && !client->isQoSm1() && packet->getType() != MQTTSN_CONNECT && !willRequested)
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
-- 
2.43.0


From e7e9b547ee5fac795fdc71481292bad57f9cdbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 49/92] fix: ADVERTISE and the proxies' connections starved
 while there was traffic

Both were looked at only when the packet event queue was idle for two
seconds.
---
 .../src/MQTTSNGWPacketHandleTask.cpp          | 21 +++++++++++--------
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h  |  1 +
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index c4002f5..2203479 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -37,6 +37,7 @@ using namespace std;
 using namespace MQTTSNGW;
 
 #define EVENT_QUE_TIME_OUT  2000      // 2000 msecs
+#define ADAPTER_CHECK_TIME  1000      // 1000 msecs
 char* currentDateTime(void);
 
 /*=====================================
@@ -107,6 +108,7 @@ void PacketHandleTask::run()
     memset(msgId, 0, 6);
 
     _advertiseTimer.start(_gateway->getGWParams()->keepAlive * 1000UL);
+    _adapterTimer.start(ADAPTER_CHECK_TIME);
 
     while (true)
     {
@@ -120,21 +122,22 @@ void PacketHandleTask::run()
             return;
         }
 
-        if (ev->getEventType() == EtTimeout)
+        /*------ Check Keep Alive Timer & send Advertise ------*/
+        if (_advertiseTimer.isTimeup())
         {
-            /*------ Check Keep Alive Timer & send Advertise ------*/
-            if (_advertiseTimer.isTimeup())
-            {
-                _mqttsnConnection->sendADVERTISE();
-                _advertiseTimer.start(_gateway->getGWParams()->keepAlive * 1000UL);
-            }
+            _mqttsnConnection->sendADVERTISE();
+            _advertiseTimer.start(_gateway->getGWParams()->keepAlive * 1000UL);
+        }
 
-            /*------ Check Adapters   Connect or PINGREQ ------*/
+        /*------ Check Adapters   Connect or PINGREQ ------*/
+        if (_adapterTimer.isTimeup())
+        {
             adpMgr->checkConnection();
+            _adapterTimer.start(ADAPTER_CHECK_TIME);
         }
 
         /*------    Handle SEARCHGW Message     ---------*/
-        else if (ev->getEventType() == EtBroadcast)
+        if (ev->getEventType() == EtBroadcast)
         {
             snPacket = ev->getMQTTSNPacket();
             _mqttsnConnection->handleSearchgw(snPacket);
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
index 452c946..671caaf 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
@@ -64,6 +64,7 @@ private:
     Gateway* _gateway
     { nullptr };
     Timer _advertiseTimer;
+    Timer _adapterTimer;
     Timer _sendUnixTimer;
     MQTTGWConnectionHandler* _mqttConnection { nullptr };
     MQTTGWPublishHandler* _mqttPublish { nullptr };
-- 
2.43.0


From bfd076c96c42eb9c0466ad8eb7b301b81a431d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 50/92] fix: with a full packet queue the stop event was lost
 and the gateway never ended

---
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 2203479..593e5ff 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -115,7 +115,7 @@ void PacketHandleTask::run()
         /* wait Event */
         ev = eventQue->timedwait(EVENT_QUE_TIME_OUT);
 
-        if (ev->getEventType() == EtStop)
+        if (ev->getEventType() == EtStop || _gateway->IsStopping())
         {
             WRITELOG("%s %s stopped.\n", currentDateTime(), getTaskName());
             delete ev;
-- 
2.43.0


From 9eb6ebe07eb6e429cc6cb795ae8de31859ed825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:40 +0000
Subject: [PATCH 51/92] fix: the last line of a configuration file without
 newline lost its last character, lines without '=' were read beyond their end
 and the rest of a long line was taken for a line

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index 9473a36..f5aff7a 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -180,13 +180,20 @@ int Process::getParam(const char* parameter, char* value)
             fclose(fp);
             return -3;
         }
+        len = strlen(str);
+        if (len == MQTTSNGW_PARAM_MAX - 2 && str[len - 1] != '\n')
+        {
+            /* skip the rest of a too long line */
+            while ((i = fgetc(fp)) != EOF && i != '\n')
+                ;
+        }
+
         if (str[0] == '#' || str[0] == '\n')
         {
             continue;
         }
 
-        len = strlen(str);
-        for (pos = 0; i < len; pos++)
+        for (pos = 0; pos < len; pos++)
         {
             if (str[pos] == '=')
             {
@@ -194,13 +201,11 @@ int Process::getParam(const char* parameter, char* value)
             }
         }
 
-        if (pos == paramlen)
+        if (pos == paramlen && pos < len)
         {
             if (strncmp(str, parameter, paramlen) == 0)
             {
                 strcpy(param, str + pos + 1);
-                param[len - pos - 2] = '\0';
-
 
                 for (i = strlen(param) - 1; i >= 0 && isspace(param[i]); i--)
                     ;
-- 
2.43.0


From eb859416197c97dfddb709ab12ffeeb67ad83337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:40 +0000
Subject: [PATCH 52/92] fix: UTF-8 characters containing certain bytes were
 damaged in the clients list and the list of predefined topics

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index a9f6161..437a1b5 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -98,6 +98,21 @@ void ClientList::setPredefinedTopics(bool aggrecate)
     }
 }
 
+/* Erase blanks, one of them consists of three bytes which may be part of other characters as well */
+static void eraseBlanks(string& data)
+{
+    static const char* blanks[] = { " ", "　", "\t", "\r", "\n" };
+    size_t pos;
+
+    for (const char* blank : blanks)
+    {
+        while ((pos = data.find(blank)) != string::npos)
+        {
+            data.erase(pos, strlen(blank));
+        }
+    }
+}
+
 /**
  * Create ClientList from a client list file.
  * @param File name of the client list
@@ -142,10 +157,7 @@ bool ClientList::createList(const char* fileName, int type)
                 continue;
             }
             string data = string(buf);
-            while ((pos = data.find_first_of(" 　\t\n")) != string::npos)
-            {
-                data.erase(pos, 1);
-            }
+            eraseBlanks(data);
             if (data.empty())
             {
                 continue;
@@ -205,10 +217,7 @@ bool ClientList::readPredefinedList(const char* fileName, bool aggregate)
                 continue;
             }
             string data = string(buf);
-            while ((pos0 = data.find_first_of(" 　\t\n")) != string::npos)
-            {
-                data.erase(pos0, 1);
-            }
+            eraseBlanks(data);
             if (data.empty())
             {
                 continue;
-- 
2.43.0


From 968755c7475dd4723fe0b53faf29c290253d3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:40 +0000
Subject: [PATCH 53/92] fix: option words within a client's id were taken for
 its options

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 437a1b5..508fc5f 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -169,10 +169,10 @@ bool ClientList::createList(const char* fileName, int type)
 
             if (netAddr.setAddress(&addr) == 0)
             {
-                qos_1 = (data.find("QoS-1") != string::npos);
-                forwarder = (data.find("forwarder") != string::npos);
-                secure = (data.find("secureConnection") != string::npos);
-                stable = !(data.find("unstableLine") != string::npos);
+                qos_1 = (addr.find("QoS-1") != string::npos);
+                forwarder = (addr.find("forwarder") != string::npos);
+                secure = (addr.find("secureConnection") != string::npos);
+                stable = !(addr.find("unstableLine") != string::npos);
                 if ((qos_1 && type == QOSM1PROXY_TYPE) || (!qos_1 && type == AGGREGATER_TYPE))
                 {
                     createClient(&netAddr, &clientId, stable, secure, type);
-- 
2.43.0


From be3973af21d2b20728310b95a25c679f54858168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:40 +0000
Subject: [PATCH 54/92] fix: a malformed line in the list of predefined topics
 ended the gateway with an uncaught exception

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 508fc5f..622e260 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -228,8 +228,16 @@ bool ClientList::readPredefinedList(const char* fileName, bool aggregate)
             string id = data.substr(0, pos0);
             clientId.cstring = strdup(id.c_str());
             string topicName = data.substr(pos0 + 1, pos1 - pos0 - 1);
-            uint16_t topicID = stoul(data.substr(pos1 + 1));
-            createPredefinedTopic(&clientId, topicName, topicID, aggregate);
+            char* end = nullptr;
+            unsigned long topicID = pos1 == string::npos ? 0 : strtoul(data.c_str() + pos1 + 1, &end, 10);
+            if (topicID == 0 || topicID > 0xffff || *end)
+            {
+                WRITELOG("Invalid predefined topic     %s\n", data.c_str());
+            }
+            else
+            {
+                createPredefinedTopic(&clientId, topicName, topicID, aggregate);
+            }
             free(clientId.cstring);
         }
         fclose(fp);
-- 
2.43.0


From fe6215b9dde4540a8790032daf60297020f023ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 55/92] fix: the serial line's modes were left unset

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 1 +
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 9d755db..b7decb0 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -503,6 +503,7 @@ int LoRaLink::recv(uint8_t* buf)
  =========================================*/
 SerialPort::SerialPort()
 {
+	memset(&_tio, 0, sizeof(_tio));
 	_tio.c_iflag = IGNBRK | IGNPAR;
 	_tio.c_cflag = CS8 | CLOCAL | CREAD;
 	_tio.c_cc[VINTR] = 0;
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 4be4eae..6a00b54 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -408,6 +408,7 @@ void XBee::setApiMode(uint8_t mode)
  =========================================*/
 SerialPort::SerialPort()
 {
+	memset(&_tio, 0, sizeof(_tio));
 	_tio.c_iflag = IGNBRK | IGNPAR;
 	_tio.c_cflag = CS8 | CLOCAL | CRTSCTS | CREAD;
 	_tio.c_cc[VINTR] = 0;
-- 
2.43.0


From a1af984ea669616a77f44e7c1bd3e7406aec52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 56/92] fix: frames of a XBee with more than 128 bytes, or too
 short for their type, overran the buffers

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 6a00b54..82ec572 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -223,7 +223,7 @@ int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 {
-	uint8_t data[128];
+	uint8_t data[256];
 	int len;
 
 	while ( true )
@@ -232,7 +232,7 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 		if ( (len = readApiFrame(data)) > 0 )
 		{
 
-			if ( data[0] == API_RESPONSE )
+			if ( data[0] == API_RESPONSE && len >= 12 && len - 12 <= bufLen )
 			{
 				memcpy(clientAddr->_address64, data + 1, 8);
 				memcpy(clientAddr->_address16, data + 9, 2);
@@ -240,7 +240,7 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 				memcpy( buf, data + 12, len);
 				return len;
 			}
-			else if ( data[0] == API_XMITSTATUS )
+			else if ( data[0] == API_XMITSTATUS && len >= 6 )
 			{
 				_respCd = data[5];
 				_respId = data[1];
@@ -275,7 +275,7 @@ int XBee::readApiFrame(uint8_t* recvData){
 		goto errexit;
 	}
 
-    if ( recv(&buf) < 0 ) // MSB length
+    if ( recv(&buf) < 0 || buf != 0 ) // MSB length
     {
     	goto errexit;
     }
-- 
2.43.0


From bf59cc61f6f5405a9df9fad3e120ffca6cbc3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 57/92] fix: every 256th frame for a XBee had the id 0, which
 is not acknowledged

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 82ec572..ac154c1 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -327,7 +327,7 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
 
-    if (_frameId++ == 0x00 ) // Frame ID
+    if (++_frameId == 0x00 ) // Frame ID
 	{
     	_frameId = 1;
 	}
-- 
2.43.0


From d409e615206b98351b9cf5c3270720d8c6867aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 58/92] fix: packets too large for a frame were sent to a XBee
 cut off

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index ac154c1..fff6cf8 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -30,6 +30,8 @@
 using namespace std;
 using namespace MQTTSNGW;
 
+#define XBEE_MAX_PAYLOAD         241   // a transmit request has 14 other bytes, and a length of one byte
+
 /*===========================================
  Class  SensorNetAddreess
  ============================================*/
@@ -214,11 +216,11 @@ int XBee::open(char* device, int baudrate)
 int XBee::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(payload, (uint8_t) payloadLen, &addr);
+	return payloadLen > XBEE_MAX_PAYLOAD ? -1 : send(payload, (uint8_t) payloadLen, &addr);
 }
 
 int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(payload, (uint8_t) payloadLen, addr);
+	return payloadLen > XBEE_MAX_PAYLOAD ? -1 : send(payload, (uint8_t) payloadLen, addr);
 }
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
-- 
2.43.0


From 0e4666ebfd494f3f5716525c0e469761902b9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 59/92] fix: after a status which came too late a XBee's
 answers were taken for those of the frame before

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index fff6cf8..a34c102 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -26,6 +26,7 @@
 #include <sys/select.h>
 #include "SensorNetwork.h"
 #include "MQTTSNGWProcess.h"
+#include "Timer.h"
 
 using namespace std;
 using namespace MQTTSNGW;
@@ -321,6 +322,7 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
 	D_NWSTACK("\r\n===> Send:    ");
     uint8_t checksum = 0;
     _respCd = -1;
+    _respId = 0;
 
     _serialPort->send(START_BYTE);
     send(0x00);              // Message Length
@@ -365,8 +367,13 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
     send(checksum);
     D_NWSTACK("\r\n");
 
-    /* wait Txim Status 0x8B */
-    _sem.timedwait(XMIT_STATUS_TIME_OVER);
+    /* wait Txim Status 0x8B, that of an earlier frame may come first */
+    Timer timer;
+    timer.start(XMIT_STATUS_TIME_OVER);
+    do
+    {
+    	_sem.timedwait(100);
+    } while ( _respId != _frameId && !timer.isTimeup() );
 
     if ( _respCd || _frameId != _respId )
     {
-- 
2.43.0


From 288115051826426107b9ce34f7a29a1edd989caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:02 +0000
Subject: [PATCH 60/92] fix: a XBee frame whose checksum did not arrive was
 accepted if its last byte happened to be the checksum

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index a34c102..d10996e 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -303,8 +303,7 @@ int XBee::readApiFrame(uint8_t* recvData){
     	checksum += buf;
     }
 
-    recv(&buf);        // checksum
-    if ( (0xff - checksum ) == buf ){
+    if ( recv(&buf) == 0 && (0xff - checksum ) == buf ){        // checksum
     	D_NWSTACK("    checksum ok\r\n");
     	return pos;
     }
-- 
2.43.0


From fa2b3c033e183c6e6a0c0ecfcbbf204d43919b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 61/92] fix: the state of LoRaLink's frame reader was unset at
 first, and an escape was taken over into the next frame

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index b7decb0..a6252e8 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -170,6 +170,8 @@ LoRaLink::LoRaLink(){
     _serialPortRx = new SerialPort();
     _serialPortTx = new SerialPort();
     _respCd = 0;
+    memset(&_loRaLinkApi, 0, sizeof(_loRaLinkApi));
+    memset(&_loRaLinkPara, 0, sizeof(_loRaLinkPara));
 }
 
 LoRaLink::~LoRaLink(){
@@ -290,6 +292,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 			para->apipos= 1;
 			para->Error = true;
 			para->Available = false;
+			para->Escape = false;
 			continue;
 		}
 
-- 
2.43.0


From b4968ebee45a295558ec6b95333402fd6d87285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 62/92] fix: frames of LoRaLink whose length is wrong overran
 the buffers, and answers with a payload were taken for packets

---
 .../src/linux/loralink/SensorNetwork.cpp      | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index a6252e8..8c88554 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -239,12 +239,6 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	{
 		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
 		{
-			clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
-
-			bufLen = _loRaLinkApi.PayloadLen;
-
-			memcpy( buf, _loRaLinkApi.Payload, bufLen );
-
 			switch ( (int) _loRaLinkApi.PayloadType )
 			{
 			case API_RSP_ACK:
@@ -261,14 +255,19 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 			case MQTT_SN:
-				memcpy( buf, _loRaLinkApi.Payload, bufLen );
-				return bufLen;
+				if ( _loRaLinkApi.PayloadLen > bufLen )
+				{
+					return 0;
+				}
+				clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
+				memcpy( buf, _loRaLinkApi.Payload, _loRaLinkApi.PayloadLen );
+				return _loRaLinkApi.PayloadLen;
 
 			default:
 				return 0;
 			}
 			_sem.post();
-			return bufLen;
+			return 0;
 
 		}
 		else
@@ -327,6 +326,11 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 
 		case 2:
 			api->PayloadLen += byte;
+			if ( api->PayloadLen < 7 || api->PayloadLen > LORA_PHY_MAXPAYLOAD + 7 )
+			{
+				para->apipos = 0;
+				continue;
+			}
 			break;
 
 		case 3:
-- 
2.43.0


From 476f7ca92519b5c9c67a2ebe9236124d2a6fb7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 63/92] fix: packets too large for LoRaLink were sent cut off

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 8c88554..b03844d 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -226,11 +226,11 @@ int LoRaLink::open(LoRaLinkModemType_t type, char* device, int baudrate)
 int LoRaLink::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, &addr);
+	return send(MQTT_SN, payload, payloadLen, &addr);
 }
 
 int LoRaLink:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, addr);
+	return send(MQTT_SN, payload, payloadLen, addr);
 }
 
 int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -396,6 +396,11 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
 	uint16_t len = pLen + 3;   // 3 = DestAddr[1] + PayloadType[1] + Crc[1]
 	_respCd = 0;
 
+	if ( pLen > LORA_PHY_MAXPAYLOAD )
+	{
+		return -1;
+	}
+
     _serialPortTx->send(START_BYTE);
 
     buf[0] = (len >> 8) & 0xff;
@@ -413,7 +418,7 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
 
     D_LRSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         chks += payload[i];
     }
-- 
2.43.0


From 4016d279d2152c09a5691b5e09b93d0748d6475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 64/92] fix: after an answer which came too late LoRaLink did
 not wait for the answers to the next packets

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index b03844d..11ac066 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -26,6 +26,7 @@
 #include <errno.h>
 #include "SensorNetwork.h"
 #include "MQTTSNGWProcess.h"
+#include "Timer.h"
 
 using namespace std;
 using namespace MQTTSNGW;
@@ -429,7 +430,12 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
     D_LRSTACK("\r\n");
 
     /* wait ACK */
-    _sem.timedwait(LORALINK_TIMEOUT_ACK);
+    Timer timer;
+    timer.start(LORALINK_TIMEOUT_ACK);
+    do
+    {
+        _sem.timedwait(100);
+    } while ( _respCd == 0 && !timer.isTimeup() );
 
     if ( _respCd == LORALINK_NO_FREE_CH )
     {
-- 
2.43.0


From c76c8a48ed5f5d152b7bba186218899cb0f84efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:38 +0000
Subject: [PATCH 65/92] fix: frames which LoRaLink's two modems sent at the
 same time were mixed up

---
 .../src/linux/loralink/SensorNetwork.cpp      | 43 ++++++++++---------
 .../src/linux/loralink/SensorNetwork.h        |  8 ++--
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 11ac066..fc5547c 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -171,8 +171,8 @@ LoRaLink::LoRaLink(){
     _serialPortRx = new SerialPort();
     _serialPortTx = new SerialPort();
     _respCd = 0;
-    memset(&_loRaLinkApi, 0, sizeof(_loRaLinkApi));
-    memset(&_loRaLinkPara, 0, sizeof(_loRaLinkPara));
+    memset(_loRaLinkApi, 0, sizeof(_loRaLinkApi));
+    memset(_loRaLinkPara, 0, sizeof(_loRaLinkPara));
 }
 
 LoRaLink::~LoRaLink(){
@@ -238,9 +238,13 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 {
 	while ( true )
 	{
-		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
+		LoRaLinkModemType_t modem;
+
+		if ( ( readApiFrame( &modem ) == true ) && (_loRaLinkPara[modem].Available == true) && ( _loRaLinkPara[modem].Error == false ) )
 		{
-			switch ( (int) _loRaLinkApi.PayloadType )
+			LoRaLinkFrame_t* api = &_loRaLinkApi[modem];
+
+			switch ( (int) api->PayloadType )
 			{
 			case API_RSP_ACK:
 				_respCd = LORALINK_ACK;
@@ -256,13 +260,13 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 			case MQTT_SN:
-				if ( _loRaLinkApi.PayloadLen > bufLen )
+				if ( api->PayloadLen > bufLen )
 				{
 					return 0;
 				}
-				clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
-				memcpy( buf, _loRaLinkApi.Payload, _loRaLinkApi.PayloadLen );
-				return _loRaLinkApi.PayloadLen;
+				clientAddr->_devAddr = api->SourceAddr;
+				memcpy( buf, api->Payload, api->PayloadLen );
+				return api->PayloadLen;
 
 			default:
 				return 0;
@@ -280,13 +284,17 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 
-bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para)
+bool LoRaLink::readApiFrame(LoRaLinkModemType_t* modem)
 {
 	uint8_t byte = 0;
 	uint16_t val = 0;
 
-	while ( recv(&byte) == 0 )
+	while ( recv(&byte, modem) == 0 )
 	{
+		/* each modem has a line of its own, frames of both may come at the same time */
+		LoRaLinkFrame_t* api = &_loRaLinkApi[*modem];
+		LoRaLinkReadParameters_t* para = &_loRaLinkPara[*modem];
+
 		if ( byte == START_BYTE )
 		{
 			para->apipos= 1;
@@ -298,15 +306,8 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 
 		if ( para->apipos > 0 && byte == ESCAPE )
 		{
-			if( recv(&byte ) == 0 )
-			{
-				byte ^= PAD;  // decode
-			}
-			else
-			{
-				para->Escape = true;
-				continue;
-			}
+			para->Escape = true;
+			continue;
 		}
 
 		if( para->Escape == true )
@@ -460,7 +461,7 @@ void LoRaLink::send(uint8_t c)
   }
 }
 
-int LoRaLink::recv(uint8_t* buf)
+int LoRaLink::recv(uint8_t* buf, LoRaLinkModemType_t* modem)
 {
     struct timeval timeout;
     int maxfd;
@@ -486,10 +487,12 @@ int LoRaLink::recv(uint8_t* buf)
     	if ( FD_ISSET(_serialPortRx->_fd, &rfds) )
 		{
     		fd = _serialPortRx->_fd;
+    		*modem = LORALINK_MODEM_RX;
 		}
     	else
 		{
     		fd = _serialPortTx->_fd;
+    		*modem = LORALINK_MODEM_TX;
 		}
 
 		if ( read(fd, buf, 1) == 1 )
diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.h b/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
index 212dc46..acfd2a7 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
@@ -146,8 +146,8 @@ public:
 	void setApiMode(uint8_t mode);
 
 private:
-	bool readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para);
-	int recv(uint8_t* buf);
+	bool readApiFrame(LoRaLinkModemType_t* modem);
+	int recv(uint8_t* buf, LoRaLinkModemType_t* modem);
 	int send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
 
@@ -156,8 +156,8 @@ private:
 	uint8_t _respCd;
 	SerialPort* _serialPortRx;
 	SerialPort* _serialPortTx;
-	LoRaLinkFrame_t _loRaLinkApi;
-	LoRaLinkReadParameters_t _loRaLinkPara;
+	LoRaLinkFrame_t _loRaLinkApi[2];
+	LoRaLinkReadParameters_t _loRaLinkPara[2];
 };
 
 /*===========================================
-- 
2.43.0


From 3135f0469817d829ff4c76e2dfd0e5b7e573212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 66/92] fix: LoRaLink addresses outside 1 to 254 were taken for
 others

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index fc5547c..a7b1ad4 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -61,12 +61,13 @@ void SensorNetAddress::setAddress( uint8_t devAddr)
 
 int SensorNetAddress::setAddress(string* address)
 {
-	_devAddr = atoi(address->c_str());
+	int devAddr = atoi(address->c_str());
 
-	if ( _devAddr == 0 )
+	if ( devAddr <= 0 || devAddr >= BROADCAST_DEVADDR )
 	{
 		return -1;
 	}
+	_devAddr = devAddr;
 	return 0;
 }
 
-- 
2.43.0


From a9e7b83c9f74c7f89bbd43f8d2129fd4b25d92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 67/92] fix: the gateway crashed when the broker's name could
 not be resolved after it had refused a connection

---
 MQTTSNGateway/src/linux/Network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index ddb0339..66d6fea 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -89,6 +89,7 @@ bool TCPStack::bind(const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 	int err = getaddrinfo(0, service, &hints, &_addrinfo);
 	if (err)
@@ -201,6 +202,7 @@ bool TCPStack::connect(const char* host, const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 
 	int err = getaddrinfo(host, service, &hints, &_addrinfo);
-- 
2.43.0


From 8c0abcc8aa8fe3dddd52d6759b0234d4b88c4fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 68/92] fix: MulticastTTL had no effect

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index e855619..d49b8ca 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -338,7 +338,8 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
         return -1;
     }
 
-    if (setsockopt(sock, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
+    /* broadcast() sends with the unicast socket */
+    if (setsockopt(_pollFds[0].fd, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
     {
         D_NWSTACK("error Multicast IP_MULTICAST_TTL in UDPPort::open\n");
         close();
-- 
2.43.0


From 31e59b7486afd78d2d99d103ea830c8e1187a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:31 +0000
Subject: [PATCH 69/92] fix: gateway ids which do not fit into a byte were
 accepted and cut

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index 3d1183a..ddb7624 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -192,15 +192,17 @@ void Gateway::initialize(int argc, char** argv)
         _params.gwPrivatekey = strdup(param);
     }
 
+    int gatewayId = 0;
     if (getParam("GatewayID", param) == 0)
     {
-        _params.gatewayId = atoi(param);
+        gatewayId = atoi(param);
     }
 
-    if (_params.gatewayId == 0 || _params.gatewayId > 255)
+    if (gatewayId <= 0 || gatewayId > 255)
     {
         throw Exception("Gateway::initialize: invalid Gateway Id", 0);
     }
+    _params.gatewayId = gatewayId;
 
     if (getParam("GatewayName", param) == 0)
     {
-- 
2.43.0


From bc30235142edcc7e5ae9a80e7c31d4ee89dd6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 70/92] fix: the gateway crashed at its start if there was no
 client left for an adapter

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 8e0e347..aeadd97 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -64,11 +64,19 @@ void Adapter::setup(const char* adpterName, AdapterType adapterType)
     idSecure.cstring = const_cast<char*>(nameSecure.c_str());
 
     Client* client = _gateway->getClientList()->createClient(0, &id, true, false, TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw EXCEPTION("Adapter::setup MaxNumberOfClients is too small", 0);
+    }
     setClient(client, false);
     client->setAdapterType(adapterType);
 
     client = _gateway->getClientList()->createClient(0, &idSecure, true, true,
     TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw EXCEPTION("Adapter::setup MaxNumberOfClients is too small", 0);
+    }
     setClient(client, true);
     client->setAdapterType(adapterType);
 }
-- 
2.43.0


From fd0ee816f7eef90f740d74cd27b3dd39a7a24566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 71/92] fix: one client more than MaxNumberOfClients was
 accepted

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 622e260..8ba47b3 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -500,8 +500,6 @@ void ClientsPool::allocate(int maxClients)
 {
     Client* cl = nullptr;
 
-    _firstClient = new Client();
-
     for (int i = 0; i < maxClients; i++)
     {
         if ((cl = new Client()) == nullptr)
-- 
2.43.0


From e71a7ac8969a14df95b4eac817b1ab4a3d0c4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:40 +0000
Subject: [PATCH 72/92] fix: with a large MaxNumberOfClients the gateway's
 queue became short and packets were lost

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 4 ++--
 MQTTSNGateway/src/MQTTSNGateway.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index ddb7624..6de169c 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -452,9 +452,9 @@ EventQue::~EventQue()
     _mutex.unlock();
 }
 
-void EventQue::setMaxSize(uint16_t maxSize)
+void EventQue::setMaxSize(int maxSize)
 {
-    _que.setMaxSize((int) maxSize);
+    _que.setMaxSize(maxSize);
 }
 
 Event* EventQue::wait(void)
diff --git a/MQTTSNGateway/src/MQTTSNGateway.h b/MQTTSNGateway/src/MQTTSNGateway.h
index d4836ae..eefed91 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.h
+++ b/MQTTSNGateway/src/MQTTSNGateway.h
@@ -127,7 +127,7 @@ public:
     ~EventQue();
     Event* wait(void);
     Event* timedwait(uint16_t millsec);
-    void setMaxSize(uint16_t maxSize);
+    void setMaxSize(int maxSize);
     void post(Event*);
     int size();
 
-- 
2.43.0


From 67102da4faae1490b86d3059a53755ea5b2844c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 73/92] fix: when poll() was interrupted the sensor network was
 read though nothing might have arrived, and could block

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp  | 5 ++++-
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index d49b8ca..ebcb122 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -391,7 +391,10 @@ int UDPPort::broadcast(const uint8_t* buf, uint32_t length)
 int UDPPort::recv(uint8_t* buf, uint16_t len, SensorNetAddress* addr)
 {
     int rc = 0;
-    poll(_pollFds, 2, 2000);  // Timeout 2 seconds
+    if (poll(_pollFds, 2, 2000) <= 0)  // Timeout 2 seconds
+    {
+        return rc;
+    }
 
     if (_pollFds[0].revents == POLLIN)
     {
diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 353d793..1f434fc 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -442,7 +442,7 @@ int UDPPort6::broadcast(const uint8_t* buf, uint32_t length)
 int UDPPort6::recv(uint8_t* buf, uint16_t len, SensorNetAddress* addr)
 {
     int rc = poll(_pollfds, 2, 2000);  // Timeout 2secs
-    if (rc == 0)
+    if (rc <= 0)
     {
         return rc;
     }
-- 
2.43.0


From 3257cdccd74a68792d488a6656efca1a416b7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 74/92] fix: unsubscribing from what no client had subscribed
 to crashed the aggregating gateway, and unsubscriptions left dangling
 pointers

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index e5703d6..5b26413 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -156,6 +156,7 @@ void AggregateTopicElement::eraseClient(Client* client)
         else if (p->_next != nullptr)  // middle
         {
             p->_prev->_next = p->_next;
+            p->_next->_prev = p->_prev;
         }
         else    // tail
         {
@@ -223,10 +224,11 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     if (elm != nullptr)
     {
         elm->eraseClient(client);
-    }
-    if (elm->_head == nullptr)
-    {
-        erase(elm);
+
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
     }
     _mutex.unlock();
     return;
@@ -251,6 +253,7 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
         else if (elmTopic->_next != nullptr)  // middle
         {
             elmTopic->_prev->_next = elmTopic->_next;
+            elmTopic->_next->_prev = elmTopic->_prev;
         }
         else    // tail
         {
-- 
2.43.0


From 1021c31863de54a13bf45ad93fccd3be586300b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 75/92] fix: the aggregating gateway took a topic filter for
 another one which it matches, and mixed up who had subscribed to what

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 5b26413..879efa1 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -270,7 +270,7 @@ AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topi
 
     while (elm != nullptr)
     {
-        if (elm->_topic->isMatch(topic->_topicName))
+        if (*elm->_topic->_topicName == *topic->_topicName)
         {
             break;
         }
-- 
2.43.0


From fe2c8d81a41b069934194390a0b3d6dcedbea168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 76/92] fix: the aggregating gateway delivered publications
 only to the clients of the first filter that matches

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 10 ++++----
 .../src/MQTTSNGWAggregateTopicTable.cpp       | 23 +++++++++++++++++++
 .../src/MQTTSNGWAggregateTopicTable.h         |  2 ++
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      |  5 ++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  1 +
 5 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index d1d4acb..f75cc9f 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -305,12 +305,12 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-    // ToDo: need to refactor
-    ClientTopicElement* elm = _gateway->getAdapterManager()->getAggregater()->getClientElement(&topic);
+    /* a client may have subscribed with several filters which match */
+    std::vector<Client*> clients;
+    _gateway->getAdapterManager()->getAggregater()->getClients(&topic, &clients);
 
-    while (elm != nullptr)
+    for (Client* devClient : clients)
     {
-        Client* devClient = elm->getClient();
         MQTTGWPacket* msg = new MQTTGWPacket();
         *msg = *packet;
 
@@ -325,8 +325,6 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
         Event* ev = new Event();
         ev->setBrokerRecvEvent(devClient, msg);
         _gateway->getPacketEventQue()->post(ev);
-
-        elm = elm->getNextClientElement();
     }
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 879efa1..164a435 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -13,6 +13,7 @@
  * Contributors:
  *    Tomoaki Yamaguchi - initial API and implementation and/or initial documentation
  **************************************************************************************/
+#include <algorithm>
 #include "MQTTSNGWAggregateTopicTable.h"
 #include "MQTTSNGWClient.h"
 
@@ -279,6 +280,28 @@ AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topi
     return elm;
 }
 
+/*
+ *  The clients with a filter that matches the topic, each one once
+ */
+void AggregateTopicTable::getClients(Topic* topic, vector<Client*>* clients)
+{
+    _mutex.lock();
+    for (AggregateTopicElement* elm = _head; elm != nullptr; elm = elm->_next)
+    {
+        if (elm->_topic->isMatch(topic->_topicName))
+        {
+            for (ClientTopicElement* p = elm->_head; p != nullptr; p = p->_next)
+            {
+                if (find(clients->begin(), clients->end(), p->_client) == clients->end())
+                {
+                    clients->push_back(p->_client);
+                }
+            }
+        }
+    }
+    _mutex.unlock();
+}
+
 ClientTopicElement* AggregateTopicTable::getClientElement(Topic* topic)
 {
     AggregateTopicElement* elm = getAggregateTopicElement(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 6293c0d..8ea0287 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -17,6 +17,7 @@
 #ifndef MQTTSNGATEWAY_SRC_MQTTSNGWAGGREGATETOPICTABLE_H_
 #define MQTTSNGATEWAY_SRC_MQTTSNGWAGGREGATETOPICTABLE_H_
 
+#include <vector>
 #include "MQTTSNGWDefines.h"
 #include "MQTTSNGWProcess.h"
 #include <stdint.h>
@@ -41,6 +42,7 @@ public:
     AggregateTopicElement* add(Topic* topic, Client* client);
     AggregateTopicElement* getAggregateTopicElement(Topic* topic);
     ClientTopicElement* getClientElement(Topic* topic);
+    void getClients(Topic* topic, std::vector<Client*>* clients);
     void erase(Topic* topic, Client* client);
     void clear(void);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 17da79f..45d121e 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -99,6 +99,11 @@ AggregateTopicElement* Aggregater::findTopic(Topic* topic)
     return _topicTable.getAggregateTopicElement(topic);
 }
 
+void Aggregater::getClients(Topic* topic, std::vector<Client*>* clients)
+{
+    _topicTable.getClients(topic, clients);
+}
+
 ClientTopicElement* Aggregater::getClientElement(Topic* topic)
 {
     AggregateTopicElement* elm = findTopic(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 490b71f..1ff344b 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -50,6 +50,7 @@ public:
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
     ClientTopicElement* getClientElement(Topic* topic);
+    void getClients(Topic* topic, std::vector<Client*>* clients);
     ClientTopicElement* getNextClientElement(ClientTopicElement* clientElement);
     Client* getClient(ClientTopicElement* clientElement);
 
-- 
2.43.0


From be89bd5fbbf8807d8200b29853526724172a1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 77/92] fix: in the aggregating gateway a repeated request was
 sent with message id 0 or not at all, requests which were never answered
 could block all later ones, and their ids could be used twice

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp  | 19 +++++++++++-------
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp  |  9 +--------
 .../src/MQTTSNGWSubscribeHandler.cpp          | 20 ++-----------------
 3 files changed, 15 insertions(+), 33 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 8db2cb1..d04ebfc 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -47,17 +47,18 @@ MessageIdTable::~MessageIdTable()
 
 MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, uint16_t clientMsgId)
 {
-    if (_cnt > _maxSize)
-    {
-        return nullptr;
-    }
-
     MessageIdElement* elm = new MessageIdElement(0, client, clientMsgId);
     if (elm == nullptr)
     {
         return nullptr;
     }
     _mutex.lock();
+    if (_cnt >= _maxSize)
+    {
+        /* answers may be lost with the connection. The oldest request will never be answered */
+        clear(_head);
+    }
+
     if (_head == nullptr)
     {
         elm->_msgId = aggregater->msgId();
@@ -70,7 +71,10 @@ MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, ui
         MessageIdElement* p = find(client, clientMsgId);
         if (p == nullptr)
         {
-            elm->_msgId = aggregater->msgId();
+            do
+            {
+                elm->_msgId = aggregater->msgId();
+            } while (find(elm->_msgId));
             p = _tail;
             _tail = elm;
             elm->_prev = p;
@@ -79,8 +83,9 @@ MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, ui
         }
         else
         {
+            /* the client repeats its request */
             delete elm;
-            elm = nullptr;
+            elm = p;
         }
     }
     _mutex.unlock();
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 788838a..73f765c 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -296,14 +296,7 @@ void MQTTSNPublishHandler::handleAggregatePublish(Client* client, MQTTSNPacket*
     {
         if (publish->getMsgId() > 0)
         {
-            if (packet->isDuplicate())
-            {
-                msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-            }
-            else
-            {
-                msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-            }
+            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, publish->getMsgId());
             publish->setMsgId(msgId);
         }
         Event* ev1 = new Event();
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index e8c066a..9ad37b1 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -209,15 +209,7 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
 
     if (subscribe != nullptr)
     {
-        int msgId = 0;
-        if (packet->isDuplicate())
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-        }
-        else
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-        }
+        int msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, subscribe->getMsgId());
 
         if (msgId == 0)
         {
@@ -244,15 +236,7 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
     MQTTGWPacket* unsubscribe = handleUnsubscribe(client, packet);
     if (unsubscribe != nullptr)
     {
-        int msgId = 0;
-        if (packet->isDuplicate())
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-        }
-        else
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-        }
+        int msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, unsubscribe->getMsgId());
 
         if (msgId == 0)
         {
-- 
2.43.0


From 2621ea8bac1da04ac280359294556842103bb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 78/92] fix: setting the message id of a PUBLISH overwrote the
 end of its topic name

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 654afde..9550ecb 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -636,11 +636,8 @@ void MQTTGWPacket::setMsgId(int msgId)
         pub.topiclen = 0;
         pub.msgId = 0;
         getPUBLISH(&pub);
-        pub.msgId = msgId;
-        ptr = _data + pub.topiclen;
-        writeInt(&ptr, pub.msgId);
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        ptr = _data + 2 + pub.topiclen;
+        writeInt(&ptr, msgId);
         break;
     case SUBSCRIBE:
     case UNSUBSCRIBE:
-- 
2.43.0


From c00ba1dc0fc96ec81ac4c8c4d30e13bc559d8d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 79/92] fix: QoS 2 publications of the aggregating gateway's
 clients were never released

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp   |  3 ++-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp     |  4 +--
 MQTTSNGateway/src/MQTTSNGWAggregater.h       |  2 +-
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp |  7 +++--
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h   |  2 +-
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 27 ++++++++++++++++++++
 6 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index f75cc9f..5349a42 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -282,7 +282,8 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+    /* PUBREC is followed by PUBREL and PUBCOMP with the same id */
+    Client* newClient = _gateway->getAdapterManager()->getAggregater()->convertClient(msgId, &clientMsgId, type != PUBREC);
     if (newClient != nullptr)
     {
         packet->setMsgId((int) clientMsgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 45d121e..d6e0115 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -59,9 +59,9 @@ uint16_t Aggregater::msgId(void)
     return Adapter::getSecureClient()->getNextPacketId();
 }
 
-Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool answered)
 {
-    return _msgIdTable.getClientMsgId(msgId, clientMsgId);
+    return _msgIdTable.getClientMsgId(msgId, clientMsgId, answered);
 }
 
 uint16_t Aggregater::addMessageIdTable(Client* client, uint16_t msgId)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 1ff344b..556bdd9 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -45,7 +45,7 @@ public:
 
     const char* getClientId(SensorNetAddress* addr);
     Client* getClient(SensorNetAddress* addr);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool answered = true);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index d04ebfc..1934343 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -120,7 +120,7 @@ MessageIdElement* MessageIdTable::find(Client* client, uint16_t clientMsgId)
     return p;
 }
 
-Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
+Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool answered)
 {
     Client* clt = nullptr;
     *clientMsgId = 0;
@@ -130,7 +130,10 @@ Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
     {
         clt = p->_client;
         *clientMsgId = p->_clientMsgId;
-        clear(p);
+        if (answered)
+        {
+            clear(p);
+        }
     }
     _mutex.unlock();
     return clt;
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 2f0b5e6..d593a89 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -39,7 +39,7 @@ public:
 
     MessageIdElement* add(Aggregater* aggregater, Client* client,
             uint16_t clientMsgId);
-    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
+    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool answered = true);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 73f765c..5cb77ea 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -321,4 +321,31 @@ void MQTTSNPublishHandler::handleAggregateAck(Client* client, MQTTSNPacket* pack
         ev->setClientSendEvent(client, ackPacket);
         _gateway->getClientSendQue()->post(ev);
     }
+    else if (type == MQTTSN_PUBREL)
+    {
+        uint16_t msgId;
+
+        if (packet->getACK(&msgId) == 0)
+        {
+            return;
+        }
+
+        uint16_t brokerMsgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, msgId);
+        Event* ev = new Event();
+        if (brokerMsgId)
+        {
+            MQTTGWPacket* pubRel = new MQTTGWPacket();
+            pubRel->setAck(PUBREL, brokerMsgId);
+            ev->setBrokerSendEvent(client, pubRel);
+            _gateway->getBrokerSendQue()->post(ev);
+        }
+        else
+        {
+            /* it has been completed */
+            MQTTSNPacket* pubComp = new MQTTSNPacket();
+            pubComp->setPUBCOMP(msgId);
+            ev->setClientSendEvent(client, pubComp);
+            _gateway->getClientSendQue()->post(ev);
+        }
+    }
 }
-- 
2.43.0


From 8200f8506c9e236028ec6a0233ad671b9b274897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 80/92] fix: the aggregating gateway acknowledged the broker's
 publications never, or once for every client asleep, and completed them with
 a wrong message id

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 5349a42..d1b43fa 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -201,6 +201,12 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
 
 void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 {
+    if (client->isAggregated())
+    {
+        /* the broker sent one packet for all clients, it is acknowledged by handleAggregatePublish */
+        return;
+    }
+
     MQTTGWPacket* pubAck = new MQTTGWPacket();
     pubAck->setAck(type, (uint16_t) pub->msgId);
     Event* ev1 = new Event();
@@ -294,7 +300,7 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 void MQTTGWPublishHandler::handleAggregatePubrel(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    pub.msgId = packet->getMsgId();
     replyACK(client, &pub, PUBCOMP);
 }
 
@@ -303,6 +309,15 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
     Publish pub;
     packet->getPUBLISH(&pub);
 
+    if (pub.header.bits.qos == 1)
+    {
+        replyACK(client, &pub, PUBACK);
+    }
+    else if (pub.header.bits.qos == 2)
+    {
+        replyACK(client, &pub, PUBREC);
+    }
+
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-- 
2.43.0


From 42692fdd9907d02291dcf04ede6785730509af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 81/92] fix: a client with a will was never connected to the
 aggregating gateway

---
 MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 5f697fb..d0836a2 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -149,6 +149,7 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
         Event* ev = new Event();
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
+        client->connackSended(MQTTSN_RC_ACCEPTED);
 
         sendStoredPublish(client);
         return;
-- 
2.43.0


From 3c29205587551c1c329d11cef90e7971415fa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 82/92] fix: subscriptions to predefined and short topics
 survived a CONNECT for a clean session in the aggregating gateway

---
 .../src/MQTTSNAggregateConnectionHandler.cpp    | 10 +---------
 .../src/MQTTSNGWAggregateTopicTable.cpp         | 17 +++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h |  1 +
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp        |  5 +++++
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index d0836a2..b2f2bad 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -78,17 +78,9 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         client->clearUndeliveredPublish();
 
         /* renew the TopicList */
+        _gateway->getAdapterManager()->getAggregater()->removeAggregateAllTopic(client);
         if (topics)
         {
-            Topic* tp = topics->getFirstTopic();
-            while (tp != nullptr)
-            {
-                if (tp->getType() == MQTTSN_TOPIC_TYPE_NORMAL)
-                {
-                    _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(tp, client);
-                }
-                tp = topics->getNextTopic(tp);
-            }
             topics->eraseNormal();
         }
         client->setSessionStatus(true);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 164a435..2530fac 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -235,6 +235,23 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     return;
 }
 
+void AggregateTopicTable::erase(Client* client)
+{
+    _mutex.lock();
+    AggregateTopicElement* elm = _head;
+    while (elm != nullptr)
+    {
+        AggregateTopicElement* next = elm->_next;
+        elm->eraseClient(client);
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
+        elm = next;
+    }
+    _mutex.unlock();
+}
+
 void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
 {
     if (elmTopic != nullptr)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 8ea0287..518883b 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -44,6 +44,7 @@ public:
     ClientTopicElement* getClientElement(Topic* topic);
     void getClients(Topic* topic, std::vector<Client*>* clients);
     void erase(Topic* topic, Client* client);
+    void erase(Client* client);
     void clear(void);
 
     void print(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index d6e0115..c9de350 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -94,6 +94,11 @@ void Aggregater::removeAggregateTopic(Topic* topic, Client* client)
     _topicTable.erase(topic, client);
 }
 
+void Aggregater::removeAggregateAllTopic(Client* client)
+{
+    _topicTable.erase(client);
+}
+
 AggregateTopicElement* Aggregater::findTopic(Topic* topic)
 {
     return _topicTable.getAggregateTopicElement(topic);
-- 
2.43.0


From fae8eff35cacf9613f505c42652b47ce850be650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 83/92] fix: when one of the aggregating gateway's clients
 unsubscribed the others lost their subscriptions

---
 .../src/MQTTSNGWSubscribeHandler.cpp          | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 9ad37b1..00681b0 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -236,20 +236,26 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
     MQTTGWPacket* unsubscribe = handleUnsubscribe(client, packet);
     if (unsubscribe != nullptr)
     {
-        int msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, unsubscribe->getMsgId());
-
-        if (msgId == 0)
-        {
-            WRITELOG("%s MQTTSNUnsubscribeHandler can't create MessageIdTableElement  %s%s\n",
-            ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
-            return;
-        }
+        uint16_t clientMsgId = unsubscribe->getMsgId();
 
         UTF8String str = unsubscribe->getTopic();
         string* topicName = new string(str.data, str.len); // topicName is delete by topic
         Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
         _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(&topic, client);
 
+        if (_gateway->getAdapterManager()->getAggregater()->findTopic(&topic) != nullptr)
+        {
+            /* other clients still have the subscription, the broker must not end it */
+            delete unsubscribe;
+            MQTTSNPacket* unsuback = new MQTTSNPacket();
+            unsuback->setUNSUBACK(clientMsgId);
+            Event* ev = new Event();
+            ev->setClientSendEvent(client, unsuback);
+            _gateway->getClientSendQue()->post(ev);
+            return;
+        }
+
+        int msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, clientMsgId);
         unsubscribe->setMsgId(msgId);
         Event* ev = new Event();
         ev->setBrokerSendEvent(client, unsubscribe);
-- 
2.43.0


From 82fe1c5399c209584387c7543f435dbdf65da1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:50 +0000
Subject: [PATCH 84/92] fix: the UDP6 gateway could not answer clients with
 link-local addresses

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 1f434fc..29380cf 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -398,6 +398,7 @@ int UDPPort6::unicast(const uint8_t* buf, uint32_t length, SensorNetAddress* add
     dest.sin6_family = AF_INET6;
     dest.sin6_port = addr->getPortNo();
     memcpy(dest.sin6_addr.s6_addr, (const void*) &addr->getIpAddress()->sin6_addr, sizeof(in6_addr));
+    dest.sin6_scope_id = addr->getIpAddress()->sin6_scope_id;
 
 #ifdef  DEBUG_NW
     char addrBuf[INET6_ADDRSTRLEN];
-- 
2.43.0


From 4de9f122cccfb86a52d48765d37062db89cd6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:06 +0000
Subject: [PATCH 85/92] fix: the UDP6 gateway ran without its multicast group
 after it could not join it

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 29380cf..0ab2e0e 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -364,7 +364,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %d IPV6_JOIN_GROUP in Udp6Port::open\033[0m\033[0;37m\n", errno);
         close();
-        return false;
+        return -1;
     }
 
 #ifdef DEBUG_NW
@@ -377,7 +377,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %s IPV6_MULTICAST_LOOP\033[0m\033[0;37m\n", strerror(errno));
         close();
-        return false;
+        return -1;
     }
     if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)
     {
-- 
2.43.0


From bef3c724516c622bc9b5253a85bb37b58588a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:42 +0000
Subject: [PATCH 86/92] fix: RFCOMM channels which do not exist were accepted
 as addresses

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index e8d6bcd..e43113d 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -98,17 +98,15 @@ int SensorNetAddress::setAddress(string* dev_channel)
 
     string dvAddr = dev_channel->substr(0, pos);
     string strchannel = dev_channel->substr(pos + 1);
-    if (strchannel == "*")
+    int channel = 0;
+    if (strchannel != "*")
     {
-        _channel = 0;
-    }
-    else
-    {
-        _channel = atoi(strchannel.c_str());
+        channel = atoi(strchannel.c_str());
     }
+    _channel = channel;
     str2ba(dvAddr.c_str(), &_bdAddr);
 
-    if ((_channel < 0 && _channel > 30) || bacmp(&_bdAddr, &NullAddr) == 0)
+    if (channel < 0 || channel > MAX_RFCOMM_CH || bacmp(&_bdAddr, &NullAddr) == 0)
     {
         return rc;
     }
-- 
2.43.0


From 1a73d0c80ba624505cbbb9478aa48b51e35d3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:42 +0000
Subject: [PATCH 87/92] fix: the RFCOMM gateway used channels which it could
 not open

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index e43113d..f434f28 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -283,7 +283,7 @@ void SensorNetwork::initialize(void)
 
     /*  Prepare BLE sockets */
     WRITELOG("Initialize RFCOMM\n");
-    int rc = MAX_RFCOMM_CH;
+    int rc = 0;
     for (uint16_t i = 0; i < MAX_RFCOMM_CH; i++)
     {
 
@@ -352,6 +352,7 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
     if (_listenSock < 0)
     {
         D_NWSTACK("error can't create Rfcomm socket in BlePort::open\n");
+        _listenSock = 0;
         return 0;
     }
 
@@ -368,6 +369,7 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
     {
         WRITELOG("\033[0m\033[0;31mCan't bind RFCOMM CH = %d  %s\033[0m\033[0;37m\n", channel, strerror(errno));
         ::close(_listenSock);
+        _listenSock = 0;
         return 0;
     }
     _channel = channel;
-- 
2.43.0


From 41fb9ab3ec06c1072d3bb3598fa8038382cc1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:42 +0000
Subject: [PATCH 88/92] fix: the RFCOMM gateway took packets of one device for
 another's, lost packets which arrived together or in parts, and did not
 notice that a device had gone

---
 .../src/linux/rfcomm/SensorNetwork.cpp        | 80 +++++++++++++++++--
 .../src/linux/rfcomm/SensorNetwork.h          |  8 +-
 2 files changed, 79 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index f434f28..3053505 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -191,6 +191,13 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
     fd_set recvfds;
     int maxSock = 0;
 
+    // what has been received together with an earlier packet
+    int rc = getPacket(buf, bufLen);
+    if (rc > 0)
+    {
+        return rc;
+    }
+
     timeout.tv_sec = 1;
     timeout.tv_usec = 0;    // 1 sec
     FD_ZERO(&recvfds);
@@ -215,7 +222,6 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
         }
     }
 
-    int rc = 0;
     if (select(maxSock + 1, &recvfds, 0, 0, &timeout) > 0)
     {
         for (int i = 0; i < MAX_RFCOMM_CH; i++)
@@ -224,8 +230,7 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
             {
                 if (FD_ISSET(_rfPorts[i]._rfCommSock, &recvfds))
                 {
-                    rc = _rfPorts[i].recv(buf, bufLen);
-                    if (rc == -1)
+                    if (_rfPorts[i].recv() == -1)
                     {
                         _rfPorts[i].close();
                     }
@@ -235,7 +240,7 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
             {
                 if (FD_ISSET(_rfPorts[i]._listenSock, &recvfds))
                 {
-                    int sock = _rfPorts[i].accept(&_senderAddr);
+                    int sock = _rfPorts[i].accept(&_rfPorts[i]._remoteAddr);
                     if (sock > 0)
                     {
                         _rfPorts[i]._rfCommSock = sock;
@@ -244,7 +249,24 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
             }
         }
     }
-    return rc;
+    return getPacket(buf, bufLen);
+}
+
+/**
+ *  Take the next packet which has arrived completely, and its sender's address
+ */
+int SensorNetwork::getPacket(uint8_t* buf, uint16_t bufLen)
+{
+    for (int i = 0; i < MAX_RFCOMM_CH; i++)
+    {
+        int rc = _rfPorts[i].getPacket(buf, bufLen);
+        if (rc > 0)
+        {
+            _senderAddr = _rfPorts[i]._remoteAddr;
+            return rc;
+        }
+    }
+    return 0;
 }
 
 /**
@@ -315,6 +337,7 @@ RfcommPort::RfcommPort()
     _rfCommSock = 0;
     _listenSock = 0;
     _channel = 0;
+    _rxLen = 0;
 }
 
 RfcommPort::~RfcommPort()
@@ -334,6 +357,7 @@ void RfcommPort::close(void)
         ::close(_rfCommSock);
         _rfCommSock = 0;
     }
+    _rxLen = 0;
 }
 
 int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
@@ -383,20 +407,60 @@ int RfcommPort::send(const uint8_t* buf, uint32_t length)
     return ::send(_rfCommSock, buf, length, 0);
 }
 
-int RfcommPort::recv(uint8_t* buf, uint16_t len)
+int RfcommPort::recv(void)
 {
     int rc = 0;
     errno = 0;
 
-    rc = ::read(_rfCommSock, buf, len);
-    if (rc < 0 && errno != EAGAIN)
+    rc = ::read(_rfCommSock, _rxBuf + _rxLen, sizeof(_rxBuf) - _rxLen);
+    if (rc < 0 && (errno == EAGAIN || errno == EINTR))
+    {
+        return 0;
+    }
+    if (rc <= 0)    // error or disconnected
     {
         D_NWSTACK("errno = %d in BlePort::recv\n", errno);
         return -1;
     }
+    _rxLen += rc;
     return rc;
 }
 
+/**
+ *  The stream of a connection has no packet boundaries. A packet starts with its length.
+ */
+int RfcommPort::getPacket(uint8_t* buf, uint16_t len)
+{
+    uint16_t packetLen = 0;
+
+    if (_rxLen > 0 && _rxBuf[0] != 1)
+    {
+        packetLen = _rxBuf[0];
+    }
+    else if (_rxLen > 2)
+    {
+        packetLen = (_rxBuf[1] << 8) | _rxBuf[2];
+    }
+    else
+    {
+        return 0;
+    }
+
+    if (packetLen < 2 || packetLen > sizeof(_rxBuf) || packetLen > len)
+    {
+        _rxLen = 0;
+        return 0;
+    }
+    if (_rxLen < packetLen)
+    {
+        return 0;
+    }
+    memcpy(buf, _rxBuf, packetLen);
+    _rxLen -= packetLen;
+    memmove(_rxBuf, _rxBuf + packetLen, _rxLen);
+    return packetLen;
+}
+
 int RfcommPort::accept(SensorNetAddress* addr)
 {
     struct sockaddr_rc devAddr = { 0 };
diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
index 2aef9f8..89fed4a 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
@@ -61,7 +61,8 @@ public:
     int open(bdaddr_t* devAddress, uint16_t channel);
 	void close(void);
     int send(const uint8_t* buf, uint32_t length);
-    int recv(uint8_t* buf, uint16_t len);
+    int recv(void);
+    int getPacket(uint8_t* buf, uint16_t len);
     int getSock(void);
     int accept(SensorNetAddress* addr);
 private:
@@ -69,6 +70,9 @@ private:
     int _listenSock;
     uint16_t _channel;
 	bool _disconReq;
+    SensorNetAddress _remoteAddr;
+    uint8_t _rxBuf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint16_t _rxLen;
 };
 
 /*===========================================
@@ -88,6 +92,8 @@ public:
 	SensorNetAddress* getSenderAddress(void);
 
 private:
+    int getPacket(uint8_t* buf, uint16_t bufLen);
+
     // sockets for RFCOMM
     RfcommPort _rfPorts[MAX_RFCOMM_CH];
 	SensorNetAddress _senderAddr;
-- 
2.43.0


From 6c3899388b6bad74c31b562e566147401d448d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:42 +0000
Subject: [PATCH 89/92] fix: the RFCOMM gateway sent packets for a device which
 had gone to the next one on its channel, or was killed by SIGPIPE

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index 3053505..4adab4a 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -156,10 +156,22 @@ SensorNetwork::~SensorNetwork()
 int SensorNetwork::unicast(const uint8_t* payload, uint16_t payloadLength, SensorNetAddress* sendToAddr)
 {
     uint16_t ch = sendToAddr->getPortNo();
-    RfcommPort* blep = &_rfPorts[ch - 1];
     int rc = 0;
     errno = 0;
 
+    if (ch < 1 || ch > MAX_RFCOMM_CH)
+    {
+        D_NWSTACK("error Channel undefined in BlePort::sendto %d\n", ch);
+        return -1;
+    }
+    RfcommPort* blep = &_rfPorts[ch - 1];
+
+    if (blep->getSock() <= 0 || !blep->_remoteAddr.isMatch(sendToAddr))
+    {
+        D_NWSTACK("the device is not connected in BlePort::sendto %d\n", ch);
+        return -1;
+    }
+
     if ((rc = blep->send(payload, (uint32_t) payloadLength)) < 0)
     {
         D_NWSTACK("errno == %d in BlePort::sendto %d\n", errno, ch);
@@ -404,7 +416,7 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
 
 int RfcommPort::send(const uint8_t* buf, uint32_t length)
 {
-    return ::send(_rfCommSock, buf, length, 0);
+    return ::send(_rfCommSock, buf, length, MSG_NOSIGNAL);
 }
 
 int RfcommPort::recv(void)
-- 
2.43.0


From f9013f7f666d41ce7a765244636f3f2b2a70f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:29 +0000
Subject: [PATCH 90/92] fix: the log's ring buffer wrote past the shared
 memory, and lost and repeated text when it wrapped

---
 MQTTSNGateway/src/linux/Threading.cpp | 126 +++-----------------------
 1 file changed, 14 insertions(+), 112 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Threading.cpp b/MQTTSNGateway/src/linux/Threading.cpp
index db26fbc..d6a3c9a 100644
--- a/MQTTSNGateway/src/linux/Threading.cpp
+++ b/MQTTSNGateway/src/linux/Threading.cpp
@@ -286,7 +286,7 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 			_buffer = (char*) _end + sizeof(uint16_t*);
 			_createFlg = true;
 
-			*_length = PROCESS_LOG_BUFFER_SIZE - sizeof(uint16_t*) * 3 - 16;
+			*_length = PROCESS_LOG_BUFFER_SIZE - (_buffer - (char*) _shmaddr);
 			*_start = *_end = 0;
 		}
 		else
@@ -340,77 +340,23 @@ RingBuffer::~RingBuffer()
 	}
 }
 
+/*
+ *  The buffer is empty if _start equals _end, so that one byte of it is never used.
+ *  The oldest data make room for new ones.
+ */
 void RingBuffer::put(char* data)
 {
 	_pmx->lock();
 
-	uint16_t dlen = strlen(data);
-	uint16_t blen = *_length - *_end;
+	int dlen = strlen(data);
 
-	if (*_end > *_start)
+	for (int i = 0; i < dlen; i++)
 	{
-		if (dlen < blen)
+		_buffer[*_end] = data[i];
+		*_end = (*_end + 1) % *_length;
+		if (*_end == *_start)
 		{
-			strncpy(_buffer + *_end, data, dlen);
-			if (*_end - *_start == 1)
-			{ // Buffer is empty.
-				*_start = *_end;
-			}
-			*_end += dlen;
-		}
-		else
-		{
-			strncpy(_buffer + *_end, data, blen);
-			strncpy(_buffer, data + blen, dlen - blen);
-			if (*_end - *_start == 1)
-			{ // Buffer is empty.
-				*_start = *_end;
-				*_end = dlen - blen;
-			}
-			else
-			{
-				*_end = dlen - blen;
-				*_start = *_end + 1;
-			}
-		}
-	}
-	else if (*_end == *_start)
-	{
-		if (dlen < blen)
-		{
-			strncpy(_buffer + *_end, data, dlen);
-			*_end += dlen;
-		}
-		else
-		{
-			const char* errmsg = "RingBuffer Error: data is too long";
-			strcpy(_buffer + *_end, errmsg);
-			*_end += strlen(errmsg);
-		}
-	}
-	else
-	{    // *_end < *_start
-		if (dlen < *_start - *_end)
-		{
-			strncpy(_buffer + *_end, data, dlen);
-			*_end += dlen;
-			*_start = *_end + 1;
-		}
-		else
-		{
-			if (dlen < blen)
-			{
-				strncpy(_buffer + *_end, data, dlen);
-				*_end += dlen;
-				*_start = *_end + 1;
-			}
-			else
-			{
-				strncpy(_buffer + *_end, data, blen);
-				strncpy(_buffer, data + blen, dlen - blen);
-				*_start = *_end;
-				*_end = dlen - blen;
-			}
+			*_start = (*_start + 1) % *_length;
 		}
 	}
 	_pmx->unlock();
@@ -421,54 +367,10 @@ int RingBuffer::get(char* buf, int length)
 	int len = 0;
 	_pmx->lock();
 
-	if (*_end > *_start)
-	{
-		if (length > *_end - *_start)
-		{
-			len = *_end - *_start;
-			if (len == 1)
-			{
-				len = 0;
-			}
-			strncpy(buf, _buffer + *_start, len);
-			*_start = *_end - 1;
-		}
-		else
-		{
-			len = length;
-			strncpy(buf, _buffer + *_start, len);
-			*_start = *_start + len;
-		}
-	}
-	else if (*_end < *_start)
+	while (len < length && *_start != *_end)
 	{
-		int blen = *_length - *_start;
-		if (length > blen)
-		{
-			strncpy(buf, _buffer + *_start, blen);
-			*_start = 0;
-			if (length - (blen + *_end) > 0)
-			{
-				strncpy(buf + blen, _buffer, *_end);
-				len = blen + *_end;
-				if (*_end > 0)
-				{
-					*_start = *_end - 1;
-				}
-			}
-			else
-			{
-				strncpy(buf + blen, _buffer, length - blen);
-				len = length;
-				*_start = length - blen;
-			}
-		}
-		else
-		{
-			strncpy(buf, _buffer + *_start, length);
-			*_start += length;
-			len = length;
-		}
+		buf[len++] = _buffer[*_start];
+		*_start = (*_start + 1) % *_length;
 	}
 	_pmx->unlock();
 	return len;
-- 
2.43.0


From 8c10b972f2a3f9032f504d8731af469b87357e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:39 +0000
Subject: [PATCH 91/92] fix: a log monitor which started or ended broke the
 lock of the gateway's log, which ended the gateway; the keys were not those
 of the configuration's directory

---
 MQTTSNGateway/src/linux/Threading.cpp | 47 +++++++++++++++------------
 MQTTSNGateway/src/linux/Threading.h   |  1 -
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Threading.cpp b/MQTTSNGateway/src/linux/Threading.cpp
index d6a3c9a..2748f3e 100644
--- a/MQTTSNGateway/src/linux/Threading.cpp
+++ b/MQTTSNGateway/src/linux/Threading.cpp
@@ -87,6 +87,13 @@ Mutex::Mutex(const char* fileName)
 		throw Exception("Mutex can't attach shared memory.", -1);
 	}
 
+	/* another process may be using the mutex */
+	struct shmid_ds ds;
+	if (shmctl(_shmid, IPC_STAT, &ds) == 0 && ds.shm_nattch > 1)
+	{
+		return;
+	}
+
 	pthread_mutexattr_init(&attr);
 
 	if (pthread_mutexattr_setpshared(&attr, PTHREAD_PROCESS_SHARED) != 0)
@@ -103,9 +110,16 @@ Mutex::~Mutex(void)
 {
 	if (_pmutex)
 	{
-		pthread_mutex_lock(_pmutex);
-		pthread_mutex_unlock(_pmutex);
-		pthread_mutex_destroy(_pmutex);
+		/* the last process destroys it */
+		struct shmid_ds ds;
+		if (shmctl(_shmid, IPC_STAT, &ds) == 0 && ds.shm_nattch == 1)
+		{
+			pthread_mutex_lock(_pmutex);
+			pthread_mutex_unlock(_pmutex);
+			pthread_mutex_destroy(_pmutex);
+			shmctl(_shmid, IPC_RMID, NULL);
+		}
+		shmdt(_pmutex);
 	}
 	else
 	{
@@ -113,10 +127,6 @@ Mutex::~Mutex(void)
 		pthread_mutex_unlock(&_mutex);
 		pthread_mutex_destroy(&_mutex);
 	}
-	if (_shmid)
-	{
-		shmctl(_shmid, IPC_RMID, NULL);
-	}
 }
 
 void Mutex::lock(void)
@@ -259,7 +269,8 @@ void NamedSemaphore::timedwait(uint16_t millsec)
 RingBuffer::RingBuffer(const char* keyDirectory)
 {
 	int fp = 0;
-	string fileName = keyDirectory + string(MQTTSNGW_RINGBUFFER_KEY);
+	string rbName = keyDirectory + string(MQTTSNGW_RINGBUFFER_KEY);
+	string fileName = rbName;
 	fp = open(fileName.c_str(), O_CREAT, S_IRGRP);
 	if ( fp > 0 )
 	{
@@ -273,7 +284,7 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 		close(fp);
 	}
 
-	key_t key = ftok(MQTTSNGW_RINGBUFFER_KEY, 1);
+	key_t key = ftok(rbName.c_str(), 1);
 
 	if ((_shmid = shmget(key, PROCESS_LOG_BUFFER_SIZE,
 	IPC_CREAT | IPC_EXCL | 0666)) >= 0)
@@ -284,7 +295,6 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 			_start = (uint16_t*) _length + sizeof(uint16_t*);
 			_end = (uint16_t*) _start + sizeof(uint16_t*);
 			_buffer = (char*) _end + sizeof(uint16_t*);
-			_createFlg = true;
 
 			*_length = PROCESS_LOG_BUFFER_SIZE - (_buffer - (char*) _shmaddr);
 			*_start = *_end = 0;
@@ -302,7 +312,6 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 			_start = (uint16_t*) _length + sizeof(uint16_t*);
 			_end = (uint16_t*) _start + sizeof(uint16_t*);
 			_buffer = (char*) _end + sizeof(uint16_t*);
-			_createFlg = false;
 		}
 		else
 		{
@@ -314,24 +323,20 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 		throw Exception( "RingBuffer can't create a shared memory.", -1);
 	}
 
-	_pmx = new Mutex(MQTTSNGW_RB_MUTEX_KEY);
+	_pmx = new Mutex(fileName.c_str());
 }
 
 RingBuffer::~RingBuffer()
 {
-	if (_createFlg)
+	if (_shmid > 0)
 	{
-		if (_shmid > 0)
+		/* the last process removes it */
+		struct shmid_ds ds;
+		if (shmctl(_shmid, IPC_STAT, &ds) == 0 && ds.shm_nattch == 1)
 		{
 			shmctl(_shmid, IPC_RMID, NULL);
 		}
-	}
-	else
-	{
-		if (_shmid > 0)
-		{
-			shmdt(_shmaddr);
-		}
+		shmdt(_shmaddr);
 	}
 
 	if (_pmx != NULL)
diff --git a/MQTTSNGateway/src/linux/Threading.h b/MQTTSNGateway/src/linux/Threading.h
index 677e7ee..87168a1 100644
--- a/MQTTSNGateway/src/linux/Threading.h
+++ b/MQTTSNGateway/src/linux/Threading.h
@@ -108,7 +108,6 @@ private:
 	char* _buffer;
 	int _shmid;
 	Mutex* _pmx;
-	bool _createFlg;
 };
 
 
-- 
2.43.0


From 6a142e7000141f6ba865722a0693e9969e6147f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:19 +0000
Subject: [PATCH 92/92] fix: a client which went to sleep just as its
 connection was lost counted as asleep, and its next CONNECT was accepted
 without one

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 8100a84..89ac953 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -241,6 +241,7 @@ bool Client::erasable(void)
 
 void Client::updateStatus(MQTTSNPacket* packet)
 {
+    _networkMutex.lock();    // the connection may be closed at the same time
     if (((_status == Cstat_Disconnected) || (_status == Cstat_Lost)) && packet->getType() == MQTTSN_CONNECT)
     {
         setKeepAlive(packet);
@@ -306,7 +307,9 @@ void Client::updateStatus(MQTTSNPacket* packet)
         default:
             break;
         }
-    }DEBUGLOG("Client Status = %s\n", theClientStatus[_status]);
+    }
+    _networkMutex.unlock();
+    DEBUGLOG("Client Status = %s\n", theClientStatus[_status]);
 }
 
 void Client::updateStatus(ClientStatus stat)
-- 
2.43.0

