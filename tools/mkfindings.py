#!/usr/bin/env python3
"""Writes known-findings.json. FIXED: commits in /repo that repair genuine defects; FINDINGS: defects that are recorded, not repaired."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
P06 559ab51 a session taken over by a new connection was removed when the old connection's clean-up ran
P17 a5e5a6f the filters of a SUBSCRIBE were applied in another order than given, so with a filter given twice the first one won
P02 a168918 messages sent again on resume did not carry the DUP flag
P03 c5c0d53 the packet id of a QoS 2 publish refused with PUBREC 0x87 stayed in use, so the next publish with it was swallowed
P29 a83cc72 wills and retained messages queued for an offline session lost their subscription identifier
P04 04e0631 stray or repeated acknowledgements raised the send quota above the client's receive maximum
P10 a318ad5 deferred retained messages were set in another order than published
P30 c3655a9 clients could set retained messages on topics beginning with '$'
P07 ba54645 a session that reconnected and disconnected again was expired by the timer of its first disconnect
P09 28cb42e sending the delayed will of an earlier connection voided the will of the connection that came after
P14 c86cfd5 the expiry interval of a will was counted from connect instead of from its publication
P09 e438b7d the delayed will of a session that a clean start replaced was never sent
P24 70977d8 messages too large for the client kept their send quota slot for ever
P19 18c8aad the session file could not be loaded when a queued message had a subscription identifier
P19 f8b1852 packet ids of loaded in-flight messages were given out again
P14 1baa83b the age of saved messages was counted twice towards their expiry
P16 383346a registering a will asked the ACL for read instead of write access
P22 692c845 UTF-8 with code points above U+10FFFF was accepted
P22 ec51bb4 control characters in front of multi-byte characters were accepted in topics
P22 1c6edfc invalid subscription options were accepted
P23 0d9666c connections that never completed their connect were kept for ever after the first check
P08 225a268 messages went to a session that had been replaced
P11 9070a49 a subscription of a replaced session counted as existing for retain handling 1
P23 b23dd78 the first keep-alive check was scheduled before the keep-alive interval was known
P19 218ec31 wills were saved with the remaining instead of the full expiry interval
P21 7fd387d a continuation frame of a fragmented websocket message closed the connection
P21 c3b33c8 a websocket connection whose read buffer became exactly full was never read again
P22 4e57bc6 a malformed UNSUBSCRIBE removed the subscriptions in front of the malformed one
P27 c487c94 wills and acknowledgements queued for MQTT 3 clients were discarded at shutdown
P27 3249543 the delayed will of a session that ends with its connection was lost at shutdown
P32 811b8fc a QoS 1 packet in between made the write buffer of a client that does not read double, and QoS 0 packets then filled that too, far beyond the limit
P27 6f2fd52 a client that was already being disconnected got a second DISCONNECT at shutdown
P06 39fb765 a session that its client gave an expiry of 0 at DISCONNECT could be resumed for some seconds (found by exploring the model)
P26 61465d9 a second change of the password or ACL file within one second was never noticed
P15 6ef971c a password file line without a hash was read beyond its end
P19 2b0e561 FlashMQ did not start anymore when a stored message exceeded max_packet_size or max_string_length, lowered since or exceeded by the MQTT 5 form it is stored in
P28 86c6bb5 a PUBLISH from another thread before the CONNACK of a resumed session; live messages overtaking queued ones, delivered twice, or stuck in the queue when a session is resumed at the same time
P20 f0087fb an error while saving (a full disk) ended the broker, a file that could not be written completely replaced the good one, and a file too short to have a header was never set aside
P19 5ab2f4c subscriptions to topics that begin with '$' were not saved
P30 5d40b15 the number of retained messages included the broker's own status messages until the first cleanup
P31 e68922a the session present flag in the answer to a login that a plugin decided later was that of the time of the CONNECT
P31 934e27a queued messages that a plugin allowed without retaining were dropped when the session was resumed
"""
FINDINGS = []
json.dump(dict(findings=FINDINGS, fixed=["fixed: property=" + l for l in FIXED.strip().split("\n")]), open(os.path.join(V, "known-findings.json"), "w"), indent=1)
