From 434e947d69be89da2efb6ce5aeec567bd7e9acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 01/23] fix: compute register address ranges without 16-bit
 wraparound

---
 register.go | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/register.go b/register.go
index 6bed37c..2ec6687 100644
--- a/register.go
+++ b/register.go
@@ -123,7 +123,7 @@ func setBits(buf []byte, start, nBits uint16, value byte) {
 func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -155,7 +155,7 @@ func (sf *NodeRegister) WriteSingleCoil(address uint16, val bool) error {
 func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -187,7 +187,7 @@ func (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {
 func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -219,7 +219,7 @@ func (sf *NodeRegister) WriteSingleDiscrete(address uint16, val bool) error {
 func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -252,9 +252,9 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 	sf.rw.Lock()
 	if len(valBuf) == int(quality*2) &&
 		(address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		buf := bytes.NewBuffer(valBuf)
 		err := binary.Read(buf, binary.BigEndian, sf.holding[start:end])
 		sf.rw.Unlock()
@@ -269,12 +269,12 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 
 // WriteHoldings 写保持寄存器
 func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		copy(sf.holding[start:end], valBuf)
 		sf.rw.Unlock()
 		return nil
@@ -287,9 +287,9 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		buf := new(bytes.Buffer)
 		err := binary.Write(buf, binary.BigEndian, sf.holding[start:end])
 		sf.rw.RUnlock()
@@ -306,9 +306,9 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		result := make([]uint16, quality)
 		copy(result, sf.holding[start:end])
 		sf.rw.RUnlock()
@@ -323,9 +323,9 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 	sf.rw.Lock()
 	if len(regBuf) == int(quality*2) &&
 		(address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		buf := bytes.NewBuffer(regBuf)
 		err := binary.Read(buf, binary.BigEndian, sf.input[start:end])
 		sf.rw.Unlock()
@@ -340,12 +340,12 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 
 // WriteInputs 写输入寄存器
 func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		copy(sf.input[start:end], valBuf)
 		sf.rw.Unlock()
 		return nil
@@ -358,9 +358,9 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		buf := new(bytes.Buffer)
 		err := binary.Write(buf, binary.BigEndian, sf.input[start:end])
 		sf.rw.RUnlock()
@@ -377,9 +377,9 @@ func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error)
 func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
-		end := start + quality
+		end := int(start) + int(quality)
 		result := make([]uint16, quality)
 		copy(result, sf.input[start:end])
 		sf.rw.RUnlock()
@@ -393,7 +393,7 @@ func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error {
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+1 <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		sf.holding[address] &= andMask
 		sf.holding[address] |= orMask & ^andMask
 		sf.rw.Unlock()
-- 
2.43.0


From 83e780c41ef24f7f2a667693e1df88e82f7b1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 02/23] fix: bit register reads and writes of more than 32767
 bits did nothing

---
 register.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/register.go b/register.go
index 2ec6687..c0ac484 100644
--- a/register.go
+++ b/register.go
@@ -125,7 +125,7 @@ func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
 		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -157,8 +157,8 @@ func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	if (address >= sf.coilsAddrStart) &&
 		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
@@ -189,7 +189,7 @@ func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) e
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
 		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -221,8 +221,8 @@ func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	if (address >= sf.discreteAddrStart) &&
 		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
-- 
2.43.0


From c06ee1658aabea1581a067c4f0086ac125c32ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 03/23] fix: register write length check overflowed for
 quantities above 32767

---
 register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index c0ac484..e397392 100644
--- a/register.go
+++ b/register.go
@@ -250,7 +250,7 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf) == int(quality*2) &&
+	if len(valBuf) == int(quality)*2 &&
 		(address >= sf.holdingAddrStart) &&
 		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
@@ -321,7 +321,7 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-	if len(regBuf) == int(quality*2) &&
+	if len(regBuf) == int(quality)*2 &&
 		(address >= sf.inputAddrStart) &&
 		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
-- 
2.43.0


From c6d840b689e42bd200ccb8f33fdd9c9fcb881156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 04/23] fix: MaskWriteHolding ignored the start address of the
 holding registers

---
 register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index e397392..7759b18 100644
--- a/register.go
+++ b/register.go
@@ -394,8 +394,8 @@ func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
 		(int(address)+1 <= int(sf.holdingAddrStart)+len(sf.holding)) {
-		sf.holding[address] &= andMask
-		sf.holding[address] |= orMask & ^andMask
+		sf.holding[address-sf.holdingAddrStart] &= andMask
+		sf.holding[address-sf.holdingAddrStart] |= orMask & ^andMask
 		sf.rw.Unlock()
 		return nil
 	}
-- 
2.43.0


From 7e82500c4d91d0aa5b7893843a9e28657f826ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:44 +0000
Subject: [PATCH 05/23] fix: ASCII client closed the port and returned after a
 successful write

---
 client_ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_ascii.go b/client_ascii.go
index f47abea..dfe088a 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -175,7 +175,7 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
-	if err == nil {
+	if err != nil {
 		sf.close()
 		return
 	}
-- 
2.43.0


From 439ae87b0febc416b836087e8ad08f29fd1be785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:46 +0000
Subject: [PATCH 06/23] fix: ASCII client panicked on a request with 253 data
 bytes

---
 modbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus.go b/modbus.go
index 946798d..ccca52a 100644
--- a/modbus.go
+++ b/modbus.go
@@ -70,7 +70,7 @@ const (
 	rtuAduMaxSize = 256 // address(1) + PDU(253) + crc(2)
 
 	asciiAduMinSize       = 3
-	asciiAduMaxSize       = 256
+	asciiAduMaxSize       = 255 // address(1) + PDU(253) + lrc(1)
 	asciiCharacterMaxSize = 513
 
 	tcpProtocolIdentifier = 0x0000
-- 
2.43.0


From bfed5f1b2c6efe9247f9aaa09bc1ec8e616e0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 07/23] fix: RTU client panicked on requests without a quantity
 field

---
 client_rtu.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index c0501d8..b98f5a9 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -121,6 +121,10 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	if len(aduRequest) < rtuAduMinSize {
+		return nil, fmt.Errorf("modbus: request length '%v' does not meet minimum '%v'", len(aduRequest), rtuAduMinSize)
+	}
+
 	sf.mu.Lock()
 	defer sf.mu.Unlock()
 
@@ -196,6 +200,9 @@ func (sf *RTUClientProvider) calculateDelay(chars int) time.Duration {
 
 func calculateResponseLength(adu []byte) int {
 	length := rtuAduMinSize
+	if len(adu) < 6 { // too short to hold a quantity
+		return length
+	}
 	switch adu[1] {
 	case FuncCodeReadDiscreteInputs,
 		FuncCodeReadCoils:
-- 
2.43.0


From 7d2983f5172c29b5342cc1e9d481121c0b5d7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:50 +0000
Subject: [PATCH 08/23] fix: WriteMultipleCoils sent surplus value bytes in a
 malformed request

---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 5823a4c..9f1731c 100644
--- a/client.go
+++ b/client.go
@@ -185,6 +185,7 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 	if len(value)*8 < int(quantity) {
 		return fmt.Errorf("modbus: value bits size '%v' does not greater or equal to quantity '%v'", len(value)*8, quantity)
 	}
+	value = value[:(quantity+7)/8] // byte count must match the quantity
 
 	response, err := sf.Send(slaveID, ProtocolDataUnit{
 		FuncCode: FuncCodeWriteMultipleCoils,
-- 
2.43.0


From 3c0a003c29d14280c7d8087303852ca947e55640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 09/23] fix: ReadWriteMultipleRegisters accepted a response of
 the wrong quantity

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 9f1731c..9646a8d 100644
--- a/client.go
+++ b/client.go
@@ -501,6 +501,10 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	}
+	if uint16(response.Data[0]) != readQuantity*2 {
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+			response.Data[0], readQuantity*2)
+	}
 	return response.Data[1:], nil
 }
 
-- 
2.43.0


From f1185d2995718524b5092e27ce0e5ee14fdb8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:54 +0000
Subject: [PATCH 10/23] fix: ReadFIFOQueue accepted a response whose fifo count
 disagrees with its size

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 9646a8d..03809c8 100644
--- a/client.go
+++ b/client.go
@@ -561,6 +561,9 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
 		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
+	case len(response.Data)-4 != 2*int(binary.BigEndian.Uint16(response.Data[2:])):
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match fifo count '%v'",
+			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
 }
-- 
2.43.0


From 26a005620c53a07b7455f80f0b54cfde07c13d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:56 +0000
Subject: [PATCH 11/23] fix: RTU client truncated FIFO responses that arrive in
 pieces

---
 client_rtu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index b98f5a9..1efff80 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -156,6 +156,10 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 
 	switch {
 	case data[1] == function:
+		if function == FuncCodeReadFIFOQueue {
+			// the response carries its own length
+			bytesToRead = rtuAduMinSize + 2 + int(binary.BigEndian.Uint16(data[2:]))
+		}
 		// if the function is correct
 		// we read the rest of the bytes
 		if n < bytesToRead {
-- 
2.43.0


From b19941a543cc29b1ef42720e63ee624a92fd3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:35 +0000
Subject: [PATCH 12/23] fix: TCP client kept a connection that was out of step
 after a failed request

---
 client_tcp.go | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/client_tcp.go b/client_tcp.go
index 7330b42..4466dcc 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"net"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -212,6 +211,11 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	if err = sf.connect(); err != nil {
 		return
 	}
+	defer func() {
+		if err != nil { // the stream is out of step with the peer, start over
+			sf.close()
+		}
+	}()
 	// Send data
 	sf.Debugf("sending [% x]", aduRequest)
 	// Set write and read timeout
@@ -230,7 +234,6 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 
 	// Read header first
 	var data [tcpAduMaxSize]byte
-	var cnt int
 
 	if sf.timeout > 0 {
 		timeout = time.Now().Add(sf.timeout)
@@ -239,13 +242,7 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		return nil, err
 	}
 
-	if cnt, err = io.ReadFull(sf.conn, data[:tcpHeaderMbapSize]); err != nil {
-		if e, ok := err.(net.Error); (ok && !e.Temporary() && !e.Timeout()) ||
-			(err != io.EOF && err == io.ErrClosedPipe) ||
-			strings.Contains(err.Error(), "use of closed network connection") ||
-			(cnt == 0 && err == io.EOF) {
-			sf.close()
-		}
+	if _, err = io.ReadFull(sf.conn, data[:tcpHeaderMbapSize]); err != nil {
 		return
 	}
 
@@ -253,11 +250,9 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	length := int(binary.BigEndian.Uint16(data[4:]))
 	switch {
 	case length <= 0:
-		_ = sf.flush(data[:])
 		err = fmt.Errorf("modbus: length in response header '%v' must not be zero", length)
 		return
 	case length > (tcpAduMaxSize - (tcpHeaderMbapSize - 1)):
-		_ = sf.flush(data[:])
 		err = fmt.Errorf("modbus: length in response header '%v' must not greater than '%v'",
 			length, tcpAduMaxSize-tcpHeaderMbapSize+1)
 		return
@@ -333,19 +328,3 @@ func (sf *TCPClientProvider) setSerialConfig(serial.Config) {}
 func (sf *TCPClientProvider) setTCPTimeout(t time.Duration) {
 	sf.timeout = t
 }
-
-// flush flushes pending data in the connection,
-// returns io.EOF if connection is closed.
-func (sf *TCPClientProvider) flush(b []byte) (err error) {
-	if err = sf.conn.SetReadDeadline(time.Now()); err != nil {
-		return
-	}
-	// timeout setting will be reset when reading
-	if _, err = sf.conn.Read(b); err != nil {
-		// Ignore timeout error
-		if netError, ok := err.(net.Error); ok && netError.Timeout() {
-			err = nil
-		}
-	}
-	return
-}
-- 
2.43.0


From 1551481820cacaa295d9011f76a9727b99897200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:37 +0000
Subject: [PATCH 13/23] fix: a response to another function was reported as a
 Modbus exception

---
 client_rtu.go | 6 +++++-
 client_tcp.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client_rtu.go b/client_rtu.go
index 1efff80..436b43a 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -242,9 +242,13 @@ func verify(reqSlaveID, rspSlaveID uint8, reqPDU, rspPDU ProtocolDataUnit) error
 	case reqSlaveID != rspSlaveID: // Check slaveID same
 		return fmt.Errorf("modbus: response slave id '%v' does not match request '%v'", rspSlaveID, reqSlaveID)
 
-	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned (exception)
+	case rspPDU.FuncCode == reqPDU.FuncCode|0x80 && rspPDU.FuncCode != reqPDU.FuncCode: // exception
 		return responseError(rspPDU)
 
+	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned
+		return fmt.Errorf("modbus: response function code '%v' does not match request '%v'",
+			rspPDU.FuncCode, reqPDU.FuncCode)
+
 	case rspPDU.Data == nil || len(rspPDU.Data) == 0: // check Empty response
 		return fmt.Errorf("modbus: response data is empty")
 	}
diff --git a/client_tcp.go b/client_tcp.go
index 4466dcc..77fda5f 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -135,9 +135,13 @@ func verifyTCPFrame(reqHead, rspHead protocolTCPHeader, reqPDU, rspPDU ProtocolD
 		return fmt.Errorf("modbus: response unit id '%v' does not match request '%v'",
 			rspHead.slaveID, reqHead.slaveID)
 
-	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned (exception)
+	case rspPDU.FuncCode == reqPDU.FuncCode|0x80 && rspPDU.FuncCode != reqPDU.FuncCode: // exception
 		return responseError(rspPDU)
 
+	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned
+		return fmt.Errorf("modbus: response function code '%v' does not match request '%v'",
+			rspPDU.FuncCode, reqPDU.FuncCode)
+
 	case rspPDU.Data == nil || len(rspPDU.Data) == 0: // check Empty response
 		return fmt.Errorf("modbus: response data is empty")
 	}
-- 
2.43.0


From 92d2f32e6e8928e6941f6d14805ec7562d4463d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 14/23] fix: no response when a function handler returned a
 plain error

---
 server_tcp_session.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 839275d..b968437 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -112,7 +112,11 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 	}
 	if err != nil {
 		funcCode |= 0x80
-		rspPduData = []byte{err.(*ExceptionError).ExceptionCode}
+		rspPduData = []byte{ExceptionCodeServerDeviceFailure}
+		var e *ExceptionError
+		if errors.As(err, &e) {
+			rspPduData[0] = e.ExceptionCode
+		}
 	}
 
 	// prepare responseAdu data,fill it
-- 
2.43.0


From 5cd23274141b337fb83bc25ac921fbb776bd6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:19 +0000
Subject: [PATCH 15/23] fix: a request header with an oversized length crashed
 the server

---
 server_tcp_session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index b968437..9dc2ae0 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -71,6 +71,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 					continue
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
+				if length < tcpAduMinSize || length > tcpAduMaxSize {
+					err = fmt.Errorf("invalid length '%v' in request header", length-tcpHeaderMbapSize+1)
+					return
+				}
 				if rdCnt == length {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
-- 
2.43.0


From 573a7f833752be0c5d385ff6caf2bb22b068e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:21 +0000
Subject: [PATCH 16/23] fix: the server parsed the payload of non-Modbus frames
 as requests

---
 server_tcp_session.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 9dc2ae0..252ecf1 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -65,17 +65,13 @@ func (sf *ServerSession) running(ctx context.Context) {
 			}
 			rdCnt += bytesRead
 			if rdCnt >= length {
-				// check head ProtocolIdentifier
-				if binary.BigEndian.Uint16(adu[2:]) != tcpProtocolIdentifier {
-					rdCnt, length = 0, tcpHeaderMbapSize
-					continue
-				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
 				if length < tcpAduMinSize || length > tcpAduMaxSize {
 					err = fmt.Errorf("invalid length '%v' in request header", length-tcpHeaderMbapSize+1)
 					return
 				}
-				if rdCnt == length {
+				// check head ProtocolIdentifier, ignore frames of other protocols
+				if rdCnt == length && binary.BigEndian.Uint16(adu[2:]) == tcpProtocolIdentifier {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
 					}
-- 
2.43.0


From b832ab8cddbed933ce20df11874a31084340f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:23 +0000
Subject: [PATCH 17/23] fix: write requests whose byte count disagrees with
 their size were not rejected as illegal value

---
 function.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/function.go b/function.go
index 7cddfd1..6e53e7e 100644
--- a/function.go
+++ b/function.go
@@ -186,7 +186,7 @@ func funcWriteMultiCoils(reg *NodeRegister, data []byte) ([]byte, error) {
 	quality := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if quality < WriteBitsQuantityMin || quality > WriteBitsQuantityMax ||
-		byteCnt != byte((quality+7)/8) {
+		byteCnt != byte((quality+7)/8) || int(byteCnt) != len(data)-5 {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 	err := reg.WriteCoils(address, quality, data[5:])
@@ -279,7 +279,7 @@ func funcWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte, err
 	count := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if count < WriteRegQuantityMin || count > WriteRegQuantityMax ||
-		uint16(byteCnt) != count*2 {
+		uint16(byteCnt) != count*2 || int(byteCnt) != len(data)-5 {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
@@ -314,7 +314,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 	writeByteCnt := data[8]
 	if readCount < ReadWriteOnReadRegQuantityMin || readCount > ReadWriteOnReadRegQuantityMax ||
 		WriteCount < ReadWriteOnWriteRegQuantityMin || WriteCount > ReadWriteOnWriteRegQuantityMax ||
-		uint16(writeByteCnt) != WriteCount*2 {
+		uint16(writeByteCnt) != WriteCount*2 || int(writeByteCnt) != len(data)-9 {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-- 
2.43.0


From d40dd8ef7a515ee764c49d331c46d50d9fb69d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:24 +0000
Subject: [PATCH 18/23] fix: read/write multiple registers wrote although it
 answered with an exception

---
 function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/function.go b/function.go
index 6e53e7e..97735da 100644
--- a/function.go
+++ b/function.go
@@ -318,6 +318,10 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
+	// reject an invalid read range before anything is written
+	if _, err := reg.ReadHoldingsBytes(readAddress, readCount); err != nil {
+		return nil, err
+	}
 	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4ded5e34ba7491b7cf90ffff781e7d4ac08a62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 19/23] fix: Close could return while a session was still being
 started

---
 server_tcp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server_tcp.go b/server_tcp.go
index 4249550..1f58c9b 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -95,7 +95,14 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			return err
 		}
 		tempDelay = minTempDelay
+		sf.mu.Lock()
+		if ctx.Err() != nil { // closed while accepting
+			sf.mu.Unlock()
+			conn.Close()
+			continue
+		}
 		sf.wg.Add(1)
+		sf.mu.Unlock()
 		go func() {
 			sess := &ServerSession{
 				conn,
-- 
2.43.0


From c88ca851ddbf165528030cf2bbfc590ab40e87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:28 +0000
Subject: [PATCH 20/23] fix: TCPServerSpecial leaked the connection when the
 connect handler failed

---
 server_tcp_special.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 818c9bb..800e489 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -207,6 +207,7 @@ func (sf *TCPServerSpecial) run() {
 		sf.Debugf("connect success")
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
+			conn.Close()
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
-- 
2.43.0


From 608993534f26821b156dbf6bb157c53dff22bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:30 +0000
Subject: [PATCH 21/23] fix: TCPServerSpecial.Close right after Start had no
 effect

---
 server_tcp_special.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 800e489..3d1e116 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -166,21 +166,20 @@ func (sf *TCPServerSpecial) Start() error {
 	if sf.server == nil {
 		return errors.New("empty remote server address,add it first")
 	}
-	go sf.run()
-	return nil
-}
-
-// 增加间隔
-func (sf *TCPServerSpecial) run() {
 	var ctx context.Context
 
 	sf.rwMux.Lock()
+	defer sf.rwMux.Unlock()
 	if !atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
-		sf.rwMux.Unlock()
-		return
+		return nil
 	}
 	ctx, sf.cancel = context.WithCancel(context.Background())
-	sf.rwMux.Unlock()
+	go sf.run(ctx)
+	return nil
+}
+
+// 增加间隔
+func (sf *TCPServerSpecial) run(ctx context.Context) {
 	defer func() {
 		sf.setConnectStatus(initial)
 		sf.Debugf("tcp server special stop!")
-- 
2.43.0


From ff779f6d57fca45b8ec11b4c8c24259d05231674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:32 +0000
Subject: [PATCH 22/23] fix: AddNodes read the slave id without its lock

---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 97735da..edc7179 100644
--- a/function.go
+++ b/function.go
@@ -44,7 +44,7 @@ func newServerCommon() *serverCommon {
 // AddNodes 增加节点.
 func (sf *serverCommon) AddNodes(nodes ...*NodeRegister) {
 	for _, v := range nodes {
-		sf.node.Store(v.slaveID, v)
+		sf.node.Store(v.SlaveID(), v)
 	}
 }
 
-- 
2.43.0


From 80d5e23f50d0c9fa1718aeb1f6ba40fdf9957271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:23 +0000
Subject: [PATCH 23/23] fix: switching logging raced with requests and running
 sessions

The log methods copied the logger, reading its switch non-atomically, and
every server session held a copy of its own.
---
 log.go                | 4 ++--
 server_tcp.go         | 2 +-
 server_tcp_session.go | 2 +-
 server_tcp_special.go | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/log.go b/log.go
index 7a52e22..946c81d 100644
--- a/log.go
+++ b/log.go
@@ -40,14 +40,14 @@ func (sf *logger) setLogProvider(p LogProvider) {
 }
 
 // Error Log ERROR level message.
-func (sf logger) Errorf(format string, v ...interface{}) {
+func (sf *logger) Errorf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Errorf(format, v...)
 	}
 }
 
 // Debug Log DEBUG level message.
-func (sf logger) Debugf(format string, v ...interface{}) {
+func (sf *logger) Debugf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Debugf(format, v...)
 	}
diff --git a/server_tcp.go b/server_tcp.go
index 1f58c9b..2532140 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -109,7 +109,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.readTimeout,
 				sf.writeTimeout,
 				sf.serverCommon,
-				sf.logger,
+				&sf.logger,
 			}
 			sess.running(ctx)
 			sf.wg.Done()
diff --git a/server_tcp_session.go b/server_tcp_session.go
index 252ecf1..ebd6c02 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -17,7 +17,7 @@ type ServerSession struct {
 	readTimeout  time.Duration
 	writeTimeout time.Duration
 	*serverCommon
-	logger
+	*logger
 }
 
 // handler net conn
diff --git a/server_tcp_special.go b/server_tcp_special.go
index 3d1e116..d2f6b5d 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -55,12 +55,13 @@ type TCPServerSpecial struct {
 
 // NewTCPServerSpecial new tcp server special, default enable auto reconnect
 func NewTCPServerSpecial() *TCPServerSpecial {
+	log := newLogger("modbusTCPServerSpec => ")
 	return &TCPServerSpecial{
 		ServerSession: ServerSession{
 			readTimeout:  TCPDefaultReadTimeout,
 			writeTimeout: TCPDefaultWriteTimeout,
 			serverCommon: newServerCommon(),
-			logger:       newLogger("modbusTCPServerSpec => "),
+			logger:       &log,
 		},
 		autoReconnect:     true,
 		enableKeepAlive:   false,
-- 
2.43.0

