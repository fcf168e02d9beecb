From ad31750b700d533f41641546589887d956e97bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 01/80] fix: saturate signed additions and subtractions towards
 the overflowed end

---
 math/overflow.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/math/overflow.go b/math/overflow.go
index 6c989a4..49c4f0f 100644
--- a/math/overflow.go
+++ b/math/overflow.go
@@ -37,6 +37,9 @@ func AddInt64(a, b int64) int64 {
 	}
 
 	log.Error("AddInt64 overflow", "a", a, "b", b)
+	if b < 0 {
+		return builtinMath.MinInt64
+	}
 	return builtinMath.MaxInt64
 }
 
@@ -75,6 +78,9 @@ func AddInt32(a, b int32) int32 {
 	res, err := AddInt32WithError(a, b)
 	if err != nil {
 		log.Error("AddInt32 overflow", "a", a, "b", b)
+		if b < 0 {
+			return builtinMath.MinInt32
+		}
 		return builtinMath.MaxInt32
 	}
 
@@ -99,5 +105,8 @@ func SubInt(a, b int) int {
 	}
 
 	log.Error("SubInt underflow", "a", a, "b", b)
+	if b < 0 {
+		return builtinMath.MaxInt64
+	}
 	return builtinMath.MinInt64
 }
-- 
2.43.0


From 3637feaabdfe7bba6a42e4a96e4a7819bbfa228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 02/80] fix: charge each big integer operation its own price

---
 arwen/elrondapi/bigIntOps.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..d416d79 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -579,7 +579,7 @@ func v1_3_bigIntSetInt64(context unsafe.Pointer, destination int32, value int64)
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSetInt64
 	metering.UseGas(gasToUse)
 
 	dest := bigInt.GetOne(destination)
@@ -591,7 +591,7 @@ func v1_3_bigIntAdd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAdd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -648,7 +648,7 @@ func v1_3_bigIntTMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntTMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -666,7 +666,7 @@ func v1_3_bigIntEDiv(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEDiv
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -684,7 +684,7 @@ func v1_3_bigIntEMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -702,7 +702,7 @@ func v1_3_bigIntAbs(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAbs
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -715,7 +715,7 @@ func v1_3_bigIntNeg(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNeg
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -754,7 +754,7 @@ func v1_3_bigIntNot(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNot
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -772,7 +772,7 @@ func v1_3_bigIntAnd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAnd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -790,7 +790,7 @@ func v1_3_bigIntOr(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntOr
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -808,7 +808,7 @@ func v1_3_bigIntXor(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntXor
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -826,7 +826,7 @@ func v1_3_bigIntShr(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShr
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -845,7 +845,7 @@ func v1_3_bigIntShl(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShl
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
-- 
2.43.0


From 923ddd7778204c4838d6ca1d44fa48a5c589af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 03/80] fix: return the name of the transferred token together
 with the call value

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..337d344 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1968,7 +1968,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From 232255b6ed683efce38415640801cfc500e883d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 04/80] fix: refuse transfers, asynchronous calls, upgrades and
 built-in functions in read-only mode

---
 arwen/contexts/output.go    | 15 +++++++++++++++
 arwen/contexts/runtime.go   |  5 +++++
 arwen/elrondapi/elrondei.go |  6 +++---
 arwen/host/execution.go     |  9 +++++++++
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..99b1ebc 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -248,6 +248,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 		return arwen.ErrTransferNegativeValue
 	}
 
+	if value.Cmp(arwen.Zero) > 0 && context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	if !context.hasSufficientBalance(sender, value) {
 		logOutput.Trace("transfer value", "error", arwen.ErrTransferInsufficientFunds)
 		return arwen.ErrTransferInsufficientFunds
@@ -280,6 +285,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 // the necessary steps to create accounts and reverses the state in case of an
 // execution error or failed value transfer.
 func (context *outputContext) Transfer(destination []byte, sender []byte, gasLimit uint64, gasLocked uint64, value *big.Int, input []byte, callType vmcommon.CallType) error {
+	if context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	checkPayableIfNotCallback := gasLimit > 0 && callType != vmcommon.AsynchronousCallBack
 	err := context.TransferValueOnly(destination, sender, value, checkPayableIfNotCallback)
 	if err != nil {
@@ -310,6 +320,11 @@ func (context *outputContext) TransferESDT(
 	value *big.Int,
 	callInput *vmcommon.ContractCallInput,
 ) (uint64, error) {
+	if context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer ESDT", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return 0, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	isSmartContract := context.host.Blockchain().IsSmartContract(destination)
 	sameShard := context.host.AreInSameShard(sender, destination)
 	callType := vmcommon.DirectCall
diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..49092f8 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -755,6 +755,11 @@ func (context *runtimeContext) GetInitFunction() wasmer.ExportedFunctionCallback
 
 // ExecuteAsyncCall locks the necessary gas and sets the async call info and a runtime breakpoint value.
 func (context *runtimeContext) ExecuteAsyncCall(address []byte, data []byte, value []byte) error {
+	if context.readOnly {
+		context.FailExecution(arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	metering := context.host.Metering()
 	err := metering.UseGasForAsyncStep()
 	if err != nil {
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 337d344..e75092c 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2662,11 +2662,10 @@ func ExecuteReadOnlyWithTypedArguments(
 	metering.UseGas(gasToUse)
 
 	sender := runtime.GetSCAddress()
-	value := runtime.GetVMInput().CallValue
 	contractCallInput, err := prepareIndirectContractCallInput(
 		host,
 		sender,
-		value,
+		big.NewInt(0), // a read-only call must not move value
 		gasLimit,
 		dest,
 		function,
@@ -2682,9 +2681,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 88aa8c5..735fa29 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -534,6 +534,10 @@ func (host *vmHost) checkUpgradePermission(vmInput *vmcommon.ContractCallInput)
 func (host *vmHost) executeUpgrade(input *vmcommon.ContractCallInput) error {
 	_, _, metering, output, runtime, _ := host.GetContexts()
 
+	if runtime.ReadOnly() {
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	err := host.checkUpgradePermission(input)
 	if err != nil {
 		return err
@@ -716,6 +720,11 @@ func (host *vmHost) ExecuteESDTTransfer(destination []byte, sender []byte, token
 func (host *vmHost) callBuiltinFunction(input *vmcommon.ContractCallInput) (*vmcommon.ContractCallInput, *vmcommon.VMOutput, error) {
 	metering := host.Metering()
 
+	if host.Runtime().ReadOnly() {
+		metering.UseGas(input.GasProvided)
+		return nil, nil, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	vmOutput, err := host.Blockchain().ProcessBuiltInFunction(input)
 	if err != nil {
 		metering.UseGas(input.GasProvided)
-- 
2.43.0


From 9679f845f4e538de5d13f8e09913914e7658f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 05/80] fix: negative indexes of returned data and of big
 integer arguments are out of range

---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 arwen/elrondapi/elrondei.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index d416d79..3ad3327 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index e75092c..11d10d9 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2895,7 +2895,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2912,7 +2912,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From 30a50ac8d388b895d4835e30b4b5d13a8feaf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 06/80] fix: keep the gas refund of the caller when a nested
 call or built-in function succeeds

---
 arwen/contexts/output.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 99b1ebc..e171988 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -97,7 +97,9 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	gasRefund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
 	mergeVMOutputs(prevState, context.outputState)
+	prevState.GasRefund = gasRefund
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
 }
@@ -519,9 +521,10 @@ func (context *outputContext) resolveReturnCodeFromError(err error) vmcommon.Ret
 
 // AddToActiveState merges the given vmOutput with the outputState.
 func (context *outputContext) AddToActiveState(rightOutput *vmcommon.VMOutput) {
-	if rightOutput.GasRefund != nil {
-		rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
+	if rightOutput.GasRefund == nil {
+		rightOutput.GasRefund = big.NewInt(0)
 	}
+	rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
 
 	for _, rightAccount := range rightOutput.OutputAccounts {
 		leftAccount, ok := context.outputState.OutputAccounts[string(rightAccount.Address)]
-- 
2.43.0


From 57d7f78375e47ad9ee03ba3b659ccdc366594864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 07/80] fix: do not count gas carried by earlier transfers as
 used by a nested call

---
 arwen/contexts/metering.go | 50 +++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/arwen/contexts/metering.go b/arwen/contexts/metering.go
index 2e6863d..aad4072 100644
--- a/arwen/contexts/metering.go
+++ b/arwen/contexts/metering.go
@@ -13,14 +13,15 @@ import (
 var logMetering = logger.GetOrCreate("arwen/metering")
 
 type meteringContext struct {
-	host               arwen.VMHost
-	stateStack         []*meteringContext
-	gasSchedule        *config.GasCost
-	blockGasLimit      uint64
-	initialGasProvided uint64
-	initialCost        uint64
-	gasForExecution    uint64
-	gasUsedByAccounts  map[string]uint64
+	host                  arwen.VMHost
+	stateStack            []*meteringContext
+	gasSchedule           *config.GasCost
+	blockGasLimit         uint64
+	initialGasProvided    uint64
+	initialCost           uint64
+	gasForExecution       uint64
+	gasUsedByAccounts     map[string]uint64
+	gasTransferredEarlier uint64
 }
 
 // NewMeteringContext creates a new meteringContext
@@ -54,6 +55,7 @@ func (context *meteringContext) InitState() {
 	context.initialGasProvided = 0
 	context.initialCost = 0
 	context.gasForExecution = 0
+	context.gasTransferredEarlier = 0
 	context.gasUsedByAccounts = make(map[string]uint64)
 }
 
@@ -64,15 +66,17 @@ func (context *meteringContext) InitStateFromContractCallInput(input *vmcommon.V
 	context.unlockGasIfAsyncCallback(input)
 	context.initialGasProvided = input.GasProvided
 	context.gasForExecution = input.GasProvided
+	context.gasTransferredEarlier = context.getTotalGasTransferred()
 }
 
 // PushState pushes the current state of the MeteringContext on its internal state stack
 func (context *meteringContext) PushState() {
 	newState := &meteringContext{
-		initialGasProvided: context.initialGasProvided,
-		initialCost:        context.initialCost,
-		gasForExecution:    context.gasForExecution,
-		gasUsedByAccounts:  context.cloneGasUsedByAccounts(),
+		initialGasProvided:    context.initialGasProvided,
+		initialCost:           context.initialCost,
+		gasForExecution:       context.gasForExecution,
+		gasUsedByAccounts:     context.cloneGasUsedByAccounts(),
+		gasTransferredEarlier: context.gasTransferredEarlier,
 	}
 
 	context.stateStack = append(context.stateStack, newState)
@@ -92,6 +96,7 @@ func (context *meteringContext) PopSetActiveState() {
 	context.initialGasProvided = prevState.initialGasProvided
 	context.initialCost = prevState.initialCost
 	context.gasForExecution = prevState.gasForExecution
+	context.gasTransferredEarlier = prevState.gasTransferredEarlier
 	context.gasUsedByAccounts = prevState.gasUsedByAccounts
 }
 
@@ -119,6 +124,7 @@ func (context *meteringContext) PopMergeActiveState() {
 	context.initialGasProvided = prevState.initialGasProvided
 	context.initialCost = prevState.initialCost
 	context.gasForExecution = prevState.gasForExecution
+	context.gasTransferredEarlier = prevState.gasTransferredEarlier
 
 	context.addToGasUsedByAccounts(prevState.gasUsedByAccounts)
 }
@@ -230,7 +236,7 @@ func (context *meteringContext) getCurrentTotalUsedGas() uint64 {
 		gasUsed = math.AddUint64(gasUsed, gasTransferred)
 	}
 
-	return gasUsed
+	return math.SubUint64(gasUsed, context.gasTransferredEarlier)
 }
 
 func (context *meteringContext) getGasUsedByAllOtherAccounts(outputAccounts map[string]*vmcommon.OutputAccount) uint64 {
@@ -248,7 +254,23 @@ func (context *meteringContext) getGasUsedByAllOtherAccounts(outputAccounts map[
 		gasUsedAndTransferred = math.AddUint64(gasUsedAndTransferred, gasTransferred)
 	}
 
-	return gasUsedAndTransferred
+	return math.SubUint64(gasUsedAndTransferred, context.gasTransferredEarlier)
+}
+
+// getTotalGasTransferred sums the gas carried by all the output transfers
+// existing at this point
+func (context *meteringContext) getTotalGasTransferred() uint64 {
+	output := context.host.Output()
+	if output == nil {
+		return 0
+	}
+
+	gasTransferred := uint64(0)
+	for _, account := range output.GetOutputAccounts() {
+		gasTransferred = math.AddUint64(gasTransferred, context.getGasTransferredByAccount(account))
+	}
+
+	return gasTransferred
 }
 
 func (context *meteringContext) getGasTransferredByAccount(account *vmcommon.OutputAccount) uint64 {
-- 
2.43.0


From f9b83c8d24d26fa6058e0e130bd2ba9a0201714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:31 +0000
Subject: [PATCH 08/80] fix: charge the gas which transferValueExecute sends
 along with a transfer

---
 arwen/elrondapi/elrondei.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 11d10d9..8fdfa0c 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1048,6 +1048,7 @@ func TransferValueExecuteWithTypedArgs(
 	}
 
 	data := makeCrossShardCallFromInput(contractCallInput)
+	metering.UseGas(uint64(gasLimit))
 	err = output.Transfer(dest, sender, uint64(gasLimit), 0, value, []byte(data), vmcommon.DirectCall)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
-- 
2.43.0


From 27c96f548705b905763b6f689e65ab30fdd6cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 09/80] fix: undo the outgoing transfer of tokens when the
 execution following it fails

---
 arwen/elrondapi/elrondei.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 8fdfa0c..c586e11 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1242,8 +1242,12 @@ func TransferESDTNFTExecuteWithTypedArgs(
 	}
 
 	snapshotBeforeTransfer := host.Blockchain().GetSnapshot()
+	output.PushState()
 
 	gasLimitForExec, executeErr := output.TransferESDT(dest, sender, esdtTokenName, uint64(nonce), esdtValue, contractCallInput)
+	if executeErr != nil {
+		output.PopSetActiveState()
+	}
 	if arwen.WithFaultAndHost(host, executeErr, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
@@ -1255,12 +1259,13 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		if executeErr != nil {
 			logEEI.Trace("ESDT post-transfer execution failed", "error", executeErr)
 			host.Blockchain().RevertToSnapshot(snapshotBeforeTransfer)
+			output.PopSetActiveState()
 			return 1
 		}
-
-		return 0
 	}
 
+	output.PopDiscard()
+
 	return 0
 }
 
-- 
2.43.0


From 7460719c9c86321343ce682456dcd9a6d0aa3e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 10/80] fix: fail nested calls which end with more gas used
 than they were given

---
 arwen/host/execution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 735fa29..fdedde2 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -655,6 +655,9 @@ func (host *vmHost) callSCMethodIndirect() error {
 	if err != nil {
 		err = host.handleBreakpointIfAny(err)
 	}
+	if err == nil {
+		err = host.checkFinalGasAfterExit()
+	}
 
 	return err
 }
-- 
2.43.0


From 3e285f8862a916b2962acc4d80a60edba57b4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 11/80] fix: count value received by an account which does not
 exist yet in its balance

---
 arwen/contexts/blockchain.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..676701e 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -74,7 +74,7 @@ func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 		if outputAccount.Balance == nil {
 			account, err := context.blockChainHook.GetUserAccount(address)
 			if err != nil || arwen.IfNil(account) {
-				return big.NewInt(0)
+				return context.getBalanceOfNewAccount(outputAccount)
 			}
 
 			outputAccount.Balance = account.GetBalance()
@@ -95,6 +95,17 @@ func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 	return balance
 }
 
+// getBalanceOfNewAccount returns the value received during this execution by an
+// account which does not exist yet; nothing is known about the accounts of the
+// other shards
+func (context *blockchainContext) getBalanceOfNewAccount(account *vmcommon.OutputAccount) *big.Int {
+	if !context.host.AreInSameShard(context.host.Runtime().GetSCAddress(), account.Address) {
+		return big.NewInt(0)
+	}
+
+	return big.NewInt(0).Set(account.BalanceDelta)
+}
+
 // GetNonce returns the nonce at which the account mapped to the given address is.
 func (context *blockchainContext) GetNonce(address []byte) (uint64, error) {
 	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
-- 
2.43.0


From 8c71fdbf8e67cd225febc296ed85c21f96883cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 12/80] fix: never cache values under the keys reserved by the
 protocol

---
 arwen/contexts/storage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..9cef511 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -156,6 +156,13 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 func (context *storageContext) getStorageFromAddressUnmetered(address []byte, key []byte) []byte {
 	var value []byte
 
+	// Values under the keys reserved by the Elrond node may be changed by
+	// built-in functions during the execution, thus they are never cached.
+	if context.isElrondReservedKey(key) {
+		value, _ = context.blockChainHook.GetStorageData(address, key)
+		return value
+	}
+
 	storageUpdates := context.GetStorageUpdates(address)
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
-- 
2.43.0


From ce2531a803b53216778e879dfd289b2b51c6b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 13/80] fix: restore the code size of the caller when a nested
 call returns

---
 arwen/contexts/runtime.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 49092f8..e74db40 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -327,6 +327,7 @@ func (context *runtimeContext) PushState() {
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
 		asyncContextInfo: context.asyncContextInfo,
+		codeSize:         context.codeSize,
 	}
 	newState.SetVMInput(context.vmInput)
 
@@ -356,6 +357,7 @@ func (context *runtimeContext) PopSetActiveState() {
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
 	context.asyncContextInfo = prevState.asyncContextInfo
+	context.codeSize = prevState.codeSize
 	context.popInstance()
 }
 
-- 
2.43.0


From 6edeb8c943e77422b11f9dd2dce5984cbdf65a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 14/80] fix: do not run cached code for a contract whose code
 was replaced in the same transaction

---
 arwen/contexts/blockchain.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 676701e..7594b34 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -1,6 +1,7 @@
 package contexts
 
 import (
+	"bytes"
 	"math/big"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
@@ -148,6 +149,14 @@ func (context *blockchainContext) GetCodeHash(address []byte) []byte {
 		return nil
 	}
 
+	// The hash known by the blockchain does not describe a code which was
+	// replaced during the current execution.
+	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
+	hasCode := !isNew && len(outputAccount.Code) > 0
+	if hasCode && !bytes.Equal(outputAccount.Code, context.blockChainHook.GetCode(account)) {
+		return nil
+	}
+
 	codeHash := account.GetCodeHash()
 	return codeHash
 }
-- 
2.43.0


From 8521224ea05cbaab2fde4d399f2f5da7f851d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 15/80] fix: make the checks of the order of BLS points
 effective

---
 crypto/signing/mcl/suiteBLS12_381.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/signing/mcl/suiteBLS12_381.go b/crypto/signing/mcl/suiteBLS12_381.go
index 89c60e6..19581d5 100644
--- a/crypto/signing/mcl/suiteBLS12_381.go
+++ b/crypto/signing/mcl/suiteBLS12_381.go
@@ -40,6 +40,11 @@ func blsInit() {
 		panic(fmt.Sprintf("could not initialize BLS12-381 curve %v", err))
 	}
 
+	// without these, the library does not know the order of the groups and
+	// IsValidOrder() holds for every point of the curve
+	bls.VerifyOrderG1(true)
+	bls.VerifyOrderG2(true)
+
 	pubKey := &bls.PublicKey{}
 	bls.BlsGetGeneratorOfPublicKey(pubKey)
 	generatorG2 := bls.CastFromPublicKey(pubKey)
-- 
2.43.0


From 9e13aef330153322e15eebc63b9263f9d62af330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 16/80] fix: reply to all kinds of hook calls of the VM process

---
 ipc/common/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..7ba6a1f 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -286,7 +286,9 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	isInFirstRange := kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	isInSecondRange := kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse
+	return isInFirstRange || isInSecondRange
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From 6e7bd38f362d15532d35115dc5b7a2a5f0e30c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/80] fix: carry gas schedule changes to the VM process

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..b4fa34d 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -31,6 +31,8 @@ func init() {
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
 	messageCreators[VersionResponse] = createMessageVersionResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 
 	messageCreators[BlockchainNewAddressRequest] = createMessageBlockchainNewAddressRequest
 	messageCreators[BlockchainNewAddressResponse] = createMessageBlockchainNewAddressResponse
@@ -129,6 +131,14 @@ func createMessageVersionResponse() MessageHandler {
 	return &MessageVersionResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return &Message{}
+}
+
 func createUndefinedMessage() MessageHandler {
 	return NewUndefinedMessage()
 }
-- 
2.43.0


From 44b5a5d2e3406c75f12c1318aa2dece42e1bed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 18/80] fix: do not format the texts of errors carried by
 messages

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 7ba6a1f..9d93197 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 6d82d7a4ea75bf7c40723d73f512ae19a30e79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 19/80] fix: carry texts which are not valid UTF-8 unchanged
 between the node and the VM process

---
 ipc/arwenpart/part.go              |  2 +-
 ipc/common/messages.go             |  6 +++---
 ipc/common/messagesBlockchain.go   |  9 ++++++++-
 ipc/common/messagesContracts.go    | 24 ++++++++++++++++++++++++
 ipc/common/serializableVMOutput.go |  6 +++---
 ipc/nodepart/blockchainRepliers.go |  2 +-
 6 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index d3f2656..522f7b4 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -107,7 +107,7 @@ func (part *ArwenPart) replyToRunSmartContractCreate(request common.MessageHandl
 
 func (part *ArwenPart) replyToRunSmartContractCall(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractCallRequest)
-	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.CallInput)
+	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.GetCallInput())
 	return common.NewMessageContractResponse(vmOutput, err)
 }
 
diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 9d93197..92a3e01 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -181,7 +181,7 @@ type MessageHandler interface {
 type Message struct {
 	DialogueNonce uint32
 	Kind          MessageKind
-	ErrorMessage  string
+	ErrorMessage  []byte
 }
 
 // GetNonce gets the dialogue nonce
@@ -210,13 +210,13 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return errors.New(message.ErrorMessage)
+	return errors.New(string(message.ErrorMessage))
 }
 
 // SetError sets the error within the message
 func (message *Message) SetError(err error) {
 	if err != nil {
-		message.ErrorMessage = err.Error()
+		message.ErrorMessage = []byte(err.Error())
 	}
 }
 
diff --git a/ipc/common/messagesBlockchain.go b/ipc/common/messagesBlockchain.go
index 707d359..6dc123b 100644
--- a/ipc/common/messagesBlockchain.go
+++ b/ipc/common/messagesBlockchain.go
@@ -398,7 +398,8 @@ func NewMessageBlockchainCurrentEpochResponse(result uint32) *MessageBlockchainC
 // MessageBlockchainProcessBuiltInFunctionRequest represents a request message
 type MessageBlockchainProcessBuiltInFunctionRequest struct {
 	Message
-	Input *vmcommon.ContractCallInput
+	Input    *vmcommon.ContractCallInput
+	Function []byte
 }
 
 // NewMessageBlockchainProcessBuiltInFunctionRequest creates a request message
@@ -406,9 +407,15 @@ func NewMessageBlockchainProcessBuiltInFunctionRequest(input *vmcommon.ContractC
 	message := &MessageBlockchainProcessBuiltInFunctionRequest{}
 	message.Kind = BlockchainProcessBuiltInFunctionRequest
 	message.Input = input
+	message.Function = functionAsBytes(input)
 	return message
 }
 
+// GetInput gets the input carried by the message
+func (message *MessageBlockchainProcessBuiltInFunctionRequest) GetInput() *vmcommon.ContractCallInput {
+	return restoreFunction(message.Input, message.Function)
+}
+
 // MessageBlockchainProcessBuiltInFunctionResponse represents a response message
 type MessageBlockchainProcessBuiltInFunctionResponse struct {
 	Message
diff --git a/ipc/common/messagesContracts.go b/ipc/common/messagesContracts.go
index 01d1565..1d25bf2 100644
--- a/ipc/common/messagesContracts.go
+++ b/ipc/common/messagesContracts.go
@@ -22,6 +22,7 @@ func NewMessageContractDeployRequest(input *vmcommon.ContractCreateInput) *Messa
 type MessageContractCallRequest struct {
 	Message
 	CallInput *vmcommon.ContractCallInput
+	Function  []byte
 }
 
 // NewMessageContractCallRequest creates a MessageContractCallRequest
@@ -29,9 +30,32 @@ func NewMessageContractCallRequest(input *vmcommon.ContractCallInput) *MessageCo
 	message := &MessageContractCallRequest{}
 	message.Kind = ContractCallRequest
 	message.CallInput = input
+	message.Function = functionAsBytes(input)
 	return message
 }
 
+// GetCallInput gets the input carried by the message
+func (message *MessageContractCallRequest) GetCallInput() *vmcommon.ContractCallInput {
+	return restoreFunction(message.CallInput, message.Function)
+}
+
+// functionAsBytes gets the name of the called function as bytes, since marshalizers do not preserve arbitrary strings
+func functionAsBytes(input *vmcommon.ContractCallInput) []byte {
+	if input == nil {
+		return nil
+	}
+
+	return []byte(input.Function)
+}
+
+func restoreFunction(input *vmcommon.ContractCallInput, function []byte) *vmcommon.ContractCallInput {
+	if input != nil {
+		input.Function = string(function)
+	}
+
+	return input
+}
+
 // MessageContractResponse is a contract response message (from Arwen)
 type MessageContractResponse struct {
 	Message
diff --git a/ipc/common/serializableVMOutput.go b/ipc/common/serializableVMOutput.go
index c8a5ab1..b4f7675 100644
--- a/ipc/common/serializableVMOutput.go
+++ b/ipc/common/serializableVMOutput.go
@@ -9,7 +9,7 @@ import (
 type SerializableVMOutput struct {
 	ReturnData              [][]byte
 	ReturnCode              vmcommon.ReturnCode
-	ReturnMessage           string
+	ReturnMessage           []byte
 	GasRemaining            uint64
 	GasRefund               *big.Int
 	CorrectedOutputAccounts []*SerializableOutputAccount
@@ -26,7 +26,7 @@ func NewSerializableVMOutput(vmOutput *vmcommon.VMOutput) *SerializableVMOutput
 	o := &SerializableVMOutput{
 		ReturnData:              vmOutput.ReturnData,
 		ReturnCode:              vmOutput.ReturnCode,
-		ReturnMessage:           vmOutput.ReturnMessage,
+		ReturnMessage:           []byte(vmOutput.ReturnMessage),
 		GasRemaining:            vmOutput.GasRemaining,
 		GasRefund:               vmOutput.GasRefund,
 		CorrectedOutputAccounts: make([]*SerializableOutputAccount, 0, len(vmOutput.OutputAccounts)),
@@ -52,7 +52,7 @@ func (o *SerializableVMOutput) ConvertToVMOutput() *vmcommon.VMOutput {
 	return &vmcommon.VMOutput{
 		ReturnData:      o.ReturnData,
 		ReturnCode:      o.ReturnCode,
-		ReturnMessage:   o.ReturnMessage,
+		ReturnMessage:   string(o.ReturnMessage),
 		GasRemaining:    o.GasRemaining,
 		GasRefund:       o.GasRefund,
 		OutputAccounts:  accountsMap,
diff --git a/ipc/nodepart/blockchainRepliers.go b/ipc/nodepart/blockchainRepliers.go
index 8c85ef8..d684f13 100644
--- a/ipc/nodepart/blockchainRepliers.go
+++ b/ipc/nodepart/blockchainRepliers.go
@@ -108,7 +108,7 @@ func (part *NodePart) replyToBlockchainCurrentEpoch(request common.MessageHandle
 
 func (part *NodePart) replyToBlockchainProcessBuiltInFunction(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageBlockchainProcessBuiltInFunctionRequest)
-	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.Input)
+	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.GetInput())
 
 	response := common.NewMessageBlockchainProcessBuiltInFunctionResponse(vmOutput, err)
 	return response
-- 
2.43.0


From ac9a758801eaba5913d9a53b690e9e98b1621351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 20/80] fix: report errors of reverting to a snapshot to the VM
 process

---
 ipc/arwenpart/blockchainGateway.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..703f7f8 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,5 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	return rawResponse.GetError()
 }
-- 
2.43.0


From f6ac4fa55c6cf736b4837278880e422f54c00276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 21/80] fix: refuse messages whose kind is unknown or does not
 match their header

---
 ipc/common/errors.go   | 3 +++
 ipc/common/receiver.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/ipc/common/errors.go b/ipc/common/errors.go
index 0f0c315..739f8dc 100644
--- a/ipc/common/errors.go
+++ b/ipc/common/errors.go
@@ -44,6 +44,9 @@ var ErrArwenNotFound = &CriticalError{InnerErr: fmt.Errorf("arwen binary not fou
 // ErrInvalidMessageNonce signals a critical error
 var ErrInvalidMessageNonce = &CriticalError{InnerErr: fmt.Errorf("invalid dialogue nonce")}
 
+// ErrBadMessageKind signals a critical error
+var ErrBadMessageKind = &CriticalError{InnerErr: fmt.Errorf("bad message kind")}
+
 // ErrStopPerNodeRequest signals a critical error
 var ErrStopPerNodeRequest = &CriticalError{InnerErr: fmt.Errorf("arwen will stop, as requested")}
 
diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index f3e9329..6a4001f 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -76,12 +76,20 @@ func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHand
 		return nil, err
 	}
 
+	if kind >= LastKind {
+		return nil, ErrBadMessageKind
+	}
+
 	message := CreateMessage(kind)
 	err = receiver.marshalizer.Unmarshal(message, buffer)
 	if err != nil {
 		return nil, err
 	}
 
+	if message.GetKind() != kind {
+		return nil, ErrBadMessageKind
+	}
+
 	return message, nil
 }
 
-- 
2.43.0


From 5d27d1a1b8ffc2f4117040dd547671345534bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 22/80] fix: do not allocate the announced length of a message
 before it arrives

---
 ipc/common/receiver.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index 6a4001f..8a1a81d 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"bytes"
 	"encoding/binary"
 	"io"
 	"os"
@@ -70,8 +71,12 @@ func (receiver *Receiver) receiveMessageLengthAndKind() (int, MessageKind, error
 }
 
 func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHandler, error) {
-	buffer := make([]byte, length)
-	_, err := io.ReadFull(receiver.reader, buffer)
+	// The announced length is not trusted: the buffer grows as the bytes arrive
+	buffer := &bytes.Buffer{}
+	_, err := io.CopyN(buffer, receiver.reader, int64(length))
+	if err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -81,7 +86,7 @@ func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHand
 	}
 
 	message := CreateMessage(kind)
-	err = receiver.marshalizer.Unmarshal(message, buffer)
+	err = receiver.marshalizer.Unmarshal(message, buffer.Bytes())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b6c11471fb531d46c177f4fef836aec1f838c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 23/80] fix: notice that the VM process closed its ends of the
 pipes

---
 ipc/nodepart/arwenDriver.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 32615d6..aa5ef29 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -116,6 +116,8 @@ func (driver *ArwenDriver) startArwen() error {
 		return err
 	}
 
+	driver.closeArwenEndsOfPipes()
+
 	err = common.SendArwenArguments(driver.arwenInitWrite, driver.arwenArguments)
 	if err != nil {
 		return err
@@ -181,6 +183,17 @@ func (driver *ArwenDriver) resetPipeStreams() error {
 	return nil
 }
 
+// closeArwenEndsOfPipes closes the ends of the pipes that belong to Arwen (which holds its own copies),
+// so that the driver notices when Arwen closes them
+func (driver *ArwenDriver) closeArwenEndsOfPipes() {
+	closeFile(driver.arwenInitRead)
+	closeFile(driver.arwenInputRead)
+	closeFile(driver.arwenOutputWrite)
+	driver.arwenInitRead = nil
+	driver.arwenInputRead = nil
+	driver.arwenOutputWrite = nil
+}
+
 func closeFile(file *os.File) {
 	if file != nil {
 		err := file.Close()
-- 
2.43.0


From a4b814fa66d8d0ad708f27fa37bd391d08c6b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 24/80] fix: limit the time to send a message to a VM process
 which does not read

---
 ipc/common/messenger.go |  5 +++++
 ipc/common/sender.go    | 26 ++++++++++++++++++++++++++
 ipc/nodepart/part.go    |  1 +
 3 files changed, 32 insertions(+)

diff --git a/ipc/common/messenger.go b/ipc/common/messenger.go
index af65fd8..1e9aa88 100644
--- a/ipc/common/messenger.go
+++ b/ipc/common/messenger.go
@@ -36,6 +36,11 @@ func NewMessenger(name string, receiver *Receiver, sender *Sender) *Messenger {
 	}
 }
 
+// SetSendTimeout limits the time to send each of the following messages (0 means no limit)
+func (messenger *Messenger) SetSendTimeout(timeout int) {
+	messenger.sender.SetTimeout(timeout)
+}
+
 // Send sends a message over the pipe
 func (messenger *Messenger) Send(message MessageHandler) error {
 	messenger.Nonce++
diff --git a/ipc/common/sender.go b/ipc/common/sender.go
index c1133ef..0322f47 100644
--- a/ipc/common/sender.go
+++ b/ipc/common/sender.go
@@ -3,6 +3,7 @@ package common
 import (
 	"encoding/binary"
 	"os"
+	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -11,6 +12,7 @@ import (
 type Sender struct {
 	writer      *os.File
 	marshalizer marshaling.Marshalizer
+	timeout     int
 }
 
 // NewSender creates a new sender
@@ -21,6 +23,11 @@ func NewSender(writer *os.File, marshalizer marshaling.Marshalizer) *Sender {
 	}
 }
 
+// SetTimeout limits the time of each of the following sends (0 means no limit)
+func (sender *Sender) SetTimeout(timeout int) {
+	sender.timeout = timeout
+}
+
 // Send sends a message over the pipe
 func (sender *Sender) Send(message MessageHandler) (int, error) {
 	dataBytes, err := sender.marshalizer.Marshal(message)
@@ -28,6 +35,15 @@ func (sender *Sender) Send(message MessageHandler) (int, error) {
 		return 0, err
 	}
 
+	if sender.timeout > 0 {
+		err = sender.setSendDeadline()
+		if err != nil {
+			return 0, err
+		}
+
+		defer sender.resetSendDeadlineQuietly()
+	}
+
 	length := len(dataBytes)
 	err = sender.sendMessageLengthAndKind(length, message.GetKind())
 	if err != nil {
@@ -42,6 +58,16 @@ func (sender *Sender) Send(message MessageHandler) (int, error) {
 	return length, err
 }
 
+func (sender *Sender) setSendDeadline() error {
+	duration := time.Duration(sender.timeout) * time.Millisecond
+	future := time.Now().Add(duration)
+	return sender.writer.SetWriteDeadline(future)
+}
+
+func (sender *Sender) resetSendDeadlineQuietly() {
+	_ = sender.writer.SetWriteDeadline(time.Time{})
+}
+
 func (sender *Sender) sendMessageLengthAndKind(length int, kind MessageKind) error {
 	buffer := make([]byte, 8)
 	binary.LittleEndian.PutUint32(buffer[0:4], uint32(length))
diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 4d087fb..9406232 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -27,6 +27,7 @@ func NewNodePart(
 	marshalizer marshaling.Marshalizer,
 ) (*NodePart, error) {
 	messenger := NewNodeMessenger(input, output, marshalizer)
+	messenger.SetSendTimeout(config.MaxLoopTime)
 
 	part := &NodePart{
 		Messenger:  messenger,
-- 
2.43.0


From 39febfd7a33c3ba0dd53b51223f4c70613857e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 25/80] fix: do not wait without limit when the time of the
 loop is exactly used up

---
 ipc/nodepart/part.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 9406232..e5324fe 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -105,7 +105,7 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 		}
 
 		remainingMilliseconds -= duration
-		if remainingMilliseconds < 0 {
+		if part.config.MaxLoopTime > 0 && remainingMilliseconds <= 0 {
 			return nil, common.ErrArwenTimeExpired
 		}
 
-- 
2.43.0


From e1ce8ef1d920d26cb75dbe9aa3fb01b1c7107544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 26/80] fix: accept from the VM process only the kind of
 response that was asked for

---
 ipc/common/messages.go | 16 ++++++++++++++++
 ipc/nodepart/part.go   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 92a3e01..d2880a3 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -292,6 +292,22 @@ func IsHookCall(message MessageHandler) bool {
 	return isInFirstRange || isInSecondRange
 }
 
+// IsResponseTo returns whether a message is a response of the kind asked for by a request
+func IsResponseTo(request MessageHandler, response MessageHandler) bool {
+	switch request.GetKind() {
+	case ContractDeployRequest, ContractCallRequest:
+		return response.GetKind() == ContractResponse
+	case VersionRequest:
+		return response.GetKind() == VersionResponse
+	case GasScheduleChangeRequest:
+		return response.GetKind() == GasScheduleChangeResponse
+	case DiagnoseWaitRequest:
+		return response.GetKind() == DiagnoseWaitResponse
+	}
+
+	return false
+}
+
 // IsStopRequest returns whether a message is a stop request
 func IsStopRequest(message MessageHandler) bool {
 	return message.GetKind() == Stop
diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index e5324fe..135eac9 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -84,6 +84,9 @@ func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHa
 	}
 
 	response, err := part.doLoop()
+	if err == nil && !common.IsResponseTo(request, response) {
+		response, err = nil, common.ErrBadMessageFromArwen
+	}
 	if err != nil {
 		log.Warn("[NODE]: end of loop", "err", err)
 	}
-- 
2.43.0


From 8ca0517c5a06ac72b5b0a229625ec9bafd33e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 27/80] fix: answer messages without content with errors
 instead of crashing

---
 ipc/arwenpart/blockchainGateway.go |  4 ++++
 ipc/arwenpart/part.go              |  8 ++++++++
 ipc/common/serializableMaps.go     |  6 +++++-
 ipc/common/serializableVMOutput.go |  8 ++++++++
 ipc/nodepart/arwenDriver.go        | 10 ++++++++++
 ipc/nodepart/blockchainRepliers.go |  8 ++++++++
 6 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 703f7f8..2d23962 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -270,6 +270,10 @@ func (blockchain *BlockchainHookGateway) ProcessBuiltInFunction(input *vmcommon.
 	}
 
 	response := rawResponse.(*common.MessageBlockchainProcessBuiltInFunctionResponse)
+	if response.VmOutput == nil {
+		return nil, common.ErrBadHookResponseFromNode
+	}
+
 	return response.VmOutput.ConvertToVMOutput(), response.GetError()
 }
 
diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index 522f7b4..0baa060 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -101,12 +101,20 @@ func (part *ArwenPart) replyToNodeRequest(request common.MessageHandler) common.
 
 func (part *ArwenPart) replyToRunSmartContractCreate(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractDeployRequest)
+	if typedRequest.CreateInput == nil {
+		return common.NewMessageContractResponse(nil, common.ErrBadRequestFromNode)
+	}
+
 	vmOutput, err := part.VMHost.RunSmartContractCreate(typedRequest.CreateInput)
 	return common.NewMessageContractResponse(vmOutput, err)
 }
 
 func (part *ArwenPart) replyToRunSmartContractCall(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractCallRequest)
+	if typedRequest.CallInput == nil {
+		return common.NewMessageContractResponse(nil, common.ErrBadRequestFromNode)
+	}
+
 	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.GetCallInput())
 	return common.NewMessageContractResponse(vmOutput, err)
 }
diff --git a/ipc/common/serializableMaps.go b/ipc/common/serializableMaps.go
index 7e1d432..68dcbd2 100644
--- a/ipc/common/serializableMaps.go
+++ b/ipc/common/serializableMaps.go
@@ -22,7 +22,11 @@ func NewSerializableMapStringBytes(data map[string][]byte) *SerializableMapStrin
 func (s *SerializableMapStringBytes) ConvertToMap() map[string][]byte {
 	m := make(map[string][]byte)
 
-	for i := 0; i < len(s.Keys); i++ {
+	if s == nil {
+		return m
+	}
+
+	for i := 0; i < len(s.Keys) && i < len(s.Values); i++ {
 		key := string(s.Keys[i])
 		value := s.Values[i]
 		m[key] = value
diff --git a/ipc/common/serializableVMOutput.go b/ipc/common/serializableVMOutput.go
index b4f7675..2970250 100644
--- a/ipc/common/serializableVMOutput.go
+++ b/ipc/common/serializableVMOutput.go
@@ -46,6 +46,10 @@ func (o *SerializableVMOutput) ConvertToVMOutput() *vmcommon.VMOutput {
 	accountsMap := make(map[string]*vmcommon.OutputAccount)
 
 	for _, item := range o.CorrectedOutputAccounts {
+		if item == nil {
+			continue
+		}
+
 		accountsMap[string(item.Address)] = item.ConvertToOutputAccount()
 	}
 
@@ -121,6 +125,10 @@ func (a *SerializableOutputAccount) ConvertToOutputAccount() *vmcommon.OutputAcc
 	updatesMap := make(map[string]*vmcommon.StorageUpdate)
 
 	for _, item := range a.StorageUpdates {
+		if item == nil {
+			continue
+		}
+
 		updatesMap[string(item.Offset)] = item
 	}
 
diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index aa5ef29..0f16537 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -300,6 +300,11 @@ func (driver *ArwenDriver) RunSmartContractCreate(input *vmcommon.ContractCreate
 	}
 
 	typedResponse := response.(*common.MessageContractResponse)
+	if typedResponse.SerializableVMOutput == nil {
+		_ = driver.Close()
+		return nil, common.WrapCriticalError(common.ErrBadMessageFromArwen)
+	}
+
 	vmOutput, err := typedResponse.SerializableVMOutput.ConvertToVMOutput(), response.GetError()
 	if err != nil {
 		return nil, err
@@ -330,6 +335,11 @@ func (driver *ArwenDriver) RunSmartContractCall(input *vmcommon.ContractCallInpu
 	}
 
 	typedResponse := response.(*common.MessageContractResponse)
+	if typedResponse.SerializableVMOutput == nil {
+		_ = driver.Close()
+		return nil, common.WrapCriticalError(common.ErrBadMessageFromArwen)
+	}
+
 	vmOutput, err := typedResponse.SerializableVMOutput.ConvertToVMOutput(), response.GetError()
 	if err != nil {
 		return nil, err
diff --git a/ipc/nodepart/blockchainRepliers.go b/ipc/nodepart/blockchainRepliers.go
index d684f13..b9d60c7 100644
--- a/ipc/nodepart/blockchainRepliers.go
+++ b/ipc/nodepart/blockchainRepliers.go
@@ -108,6 +108,10 @@ func (part *NodePart) replyToBlockchainCurrentEpoch(request common.MessageHandle
 
 func (part *NodePart) replyToBlockchainProcessBuiltInFunction(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageBlockchainProcessBuiltInFunctionRequest)
+	if typedRequest.Input == nil {
+		return common.NewMessageBlockchainProcessBuiltInFunctionResponse(nil, common.ErrBadMessageFromArwen)
+	}
+
 	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.GetInput())
 
 	response := common.NewMessageBlockchainProcessBuiltInFunctionResponse(vmOutput, err)
@@ -153,6 +157,10 @@ func (part *NodePart) replyToBlockchainGetUserAccount(request common.MessageHand
 
 func (part *NodePart) replyToBlockchainGetCode(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageBlockchainGetCodeRequest)
+	if typedRequest.Account == nil {
+		return common.NewMessageBlockchainGetCodeResponse(nil)
+	}
+
 	code := part.blockchain.GetCode(typedRequest.Account)
 
 	response := common.NewMessageBlockchainGetCodeResponse(code)
-- 
2.43.0


From bb242b8948101964a9f2bb7739d817dc4afd8ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 28/80] fix: survive that the program of the VM process cannot
 be started

---
 ipc/nodepart/arwenDriver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 0f16537..3b751ca 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -215,6 +215,10 @@ func (driver *ArwenDriver) RestartArwenIfNecessary() error {
 
 // IsClosed checks whether the Arwen process is closed
 func (driver *ArwenDriver) IsClosed() bool {
+	if driver.command.Process == nil {
+		return true
+	}
+
 	pid := driver.command.Process.Pid
 	process, err := os.FindProcess(pid)
 	if err != nil {
@@ -383,6 +387,10 @@ func (driver *ArwenDriver) Close() error {
 }
 
 func (driver *ArwenDriver) stopArwen() error {
+	if driver.command.Process == nil {
+		return nil
+	}
+
 	err := driver.command.Process.Kill()
 	if err != nil {
 		return err
-- 
2.43.0


From 7c7ed784f54c10ad4c6f7cc2eb3666dff02c2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 29/80] fix: compute the gas locked for a callback of a
 deployed contract from its own code

---
 arwen/contexts/runtime.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index e74db40..744502d 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -120,6 +120,8 @@ func (context *runtimeContext) setWarmInstanceWhenNeeded(gasLimit uint64) bool {
 
 // StartWasmerInstance creates a new wasmer instance if the maxWasmerInstances has not been reached.
 func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uint64, newCode bool) error {
+	context.codeSize = uint64(len(contract))
+
 	if context.RunningInstancesCount() >= context.maxWasmerInstances {
 		context.instance = nil
 		logRuntime.Error("create instance", "error", arwen.ErrMaxInstancesReached)
-- 
2.43.0


From 03a87fc96ceab7299afa76103364dd7c40d435d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 30/80] fix: reject fixed width signed number expressions
 without a number

---
 mandos-go/expression/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 4cc5a55..cef6050 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -182,6 +182,10 @@ func (ei *ExprInterpreter) InterpretString(strRaw string) ([]byte, error) {
 
 // targetWidth = 0 means minimum length that can contain the result
 func (ei *ExprInterpreter) interpretNumber(strRaw string, targetWidth int) ([]byte, error) {
+	if len(strRaw) == 0 {
+		return []byte{}, errors.New("missing number")
+	}
+
 	// signed numbers
 	if strRaw[0] == '-' || strRaw[0] == '+' {
 		numberBytes, err := ei.interpretUnsignedNumber(strRaw[1:])
-- 
2.43.0


From a7a4393089122485de6fb089ceb85349f1737f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 31/80] fix: reject signs inside binary number expressions

---
 mandos-go/expression/interpreter/interpreter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index cef6050..1daff10 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -229,7 +229,7 @@ func (ei *ExprInterpreter) interpretUnsignedNumber(strRaw string) ([]byte, error
 		result := new(big.Int)
 		var parseOk bool
 		result, parseOk = result.SetString(str[2:], 2)
-		if !parseOk {
+		if !parseOk || str[2] == '-' || str[2] == '+' {
 			return []byte{}, fmt.Errorf("could not parse binary value: %s", strRaw)
 		}
 
-- 
2.43.0


From a32ff0143c2e6069da99e502f7494ab660e0b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 32/80] fix: write the shard id of reconstructed contract
 addresses with two digits

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index eaa52f1..4baca19 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -95,7 +95,7 @@ func addressPretty(value []byte) string {
 			addrStr := string(value[ei.SCAddressNumLeadingZeros:31])
 			addrStr = strings.TrimRight(addrStr, "_")
 			shard_id := value[31]
-			return fmt.Sprintf("sc:%s#%x", addrStr, shard_id)
+			return fmt.Sprintf("sc:%s#%02x", addrStr, shard_id)
 		}
 	}
 
-- 
2.43.0


From 9d439afc5f41f5a78bef6d55bd286979dcb23404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 33/80] fix: do not write separators into reconstructed string
 and address expressions

---
 mandos-go/expression/reconstructor/reconstructor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index 4baca19..ce98ece 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -40,6 +40,10 @@ func (er *ExprReconstructor) Reconstruct(value []byte, hint ExprReconstructorHin
 	case NumberHint:
 		return fmt.Sprintf("%d", big.NewInt(0).SetBytes(value))
 	case StrHint:
+		if bytes.ContainsAny(value, "|") {
+			// would be read as a concatenation
+			return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+		}
 		return fmt.Sprintf("str:%s", string(value))
 	case AddressHint:
 		return addressPretty(value)
@@ -82,6 +86,10 @@ func addressPretty(value []byte) string {
 	if len(value) != 32 {
 		return unknownByteArrayPretty(value)
 	}
+	if bytes.ContainsAny(value[:31], "#|") {
+		// the separators cannot be part of an address expression
+		return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+	}
 
 	// smart contract addresses
 	leadingZeros := make([]byte, ei.SCAddressNumLeadingZeros)
-- 
2.43.0


From 61b1a364cf280d0ccbbf305f572d577b40870e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 34/80] fix: reject list elements that are not separated by
 commas instead of dropping them

---
 mandos-go/orderedjson/ojParse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index d1d3f49..4ef1e84 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -122,6 +122,8 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						done = false
 					} else if c == ',' {
 						stateStack.push(&jsonParserStateAnyObjPlaceholder{})
+					} else {
+						return nil, errors.New("invalid list state")
 					}
 				}
 			case *jsonParserStateMap:
-- 
2.43.0


From be31f3f8c838b3d6a8dee2524bda1d7a6580d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 35/80] fix: recognise the end of JSON strings that end with an
 escaped backslash

---
 mandos-go/orderedjson/ojParse.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 4ef1e84..8962e51 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -35,6 +35,15 @@ func isWhitespace(c byte) bool {
 	return c == ' ' || c == '\n' || c == '\r' || c == '\t'
 }
 
+// isEscaped returns true if an odd number of backslashes precede the character at the given position.
+func isEscaped(input []byte, index int) bool {
+	numBackslashes := 0
+	for i := index - 1; i >= 0 && input[i] == '\\'; i-- {
+		numBackslashes++
+	}
+	return numBackslashes%2 == 1
+}
+
 // ParseOrderedJSON parses JSON preserving order in maps
 func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 	stateStack := &jsonParserStateStack{}
@@ -80,10 +89,9 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 					specificState.stringEscape = (c == '"')
 					specificState.buffer.WriteByte(c)
 				} else {
-					prevChar := input[i-1]
 					if specificState.stringEscape {
 						specificState.buffer.WriteByte(c)
-						if c == '"' && prevChar != '\\' {
+						if c == '"' && !isEscaped(input, i) {
 							stateStack.pop()
 							var err error
 							pendingResult, err = specificState.finalize()
@@ -154,8 +162,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						}
 					} else {
 						specificState.keyBuffer.WriteByte(c)
-						prevChar := input[i-1]
-						if c == '"' && prevChar != '\\' {
+						if c == '"' && !isEscaped(input, i) {
 							specificState.state = 1
 						}
 					}
-- 
2.43.0


From 0f55242395712f5e2ac77bdff7ffc98f56559eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 36/80] fix: reject scenario steps without a transaction
 instead of crashing

---
 mandos-go/json/parse/parseScenario.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 36a5901..9c4449f 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -260,8 +260,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 				return nil, fmt.Errorf("cannot parse tx step transaction: %w", err)
 			}
 		case "expect":
-			if !step.Tx.Type.IsSmartContractTx() {
-				return nil, fmt.Errorf("no expected result allowed for step of type %s", step.StepTypeName())
+			if !txType.IsSmartContractTx() {
+				return nil, errors.New("no expected result allowed for this type of step")
 			}
 			step.ExpectedResult, err = p.processTxExpectedResult(kvp.Value)
 			if err != nil {
@@ -271,5 +271,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 			return nil, fmt.Errorf("invalid tx step field: %s", kvp.Key)
 		}
 	}
+	if step.Tx == nil {
+		return nil, errors.New("missing tx in tx step")
+	}
 	return step, nil
 }
-- 
2.43.0


From 210f806322a3b751d17ee134ebd97f80424dd69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 37/80] fix: reject state checks without accounts instead of
 crashing

---
 mandos-go/json/parse/parseScenario.go | 3 +++
 mandos-go/json/parse/parseTest.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 9c4449f..78b0aca 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -207,6 +207,9 @@ func (p *Parser) processScenarioStep(stepObj oj.OJsonObject) (mj.Step, error) {
 				return nil, fmt.Errorf("invalid check state field: %s", kvp.Key)
 			}
 		}
+		if step.CheckAccounts == nil {
+			return nil, errors.New("missing accounts in check state step")
+		}
 		return step, nil
 	case mj.StepNameDumpState:
 		step := &mj.DumpStateStep{}
diff --git a/mandos-go/json/parse/parseTest.go b/mandos-go/json/parse/parseTest.go
index 9d659e6..3e84bdc 100644
--- a/mandos-go/json/parse/parseTest.go
+++ b/mandos-go/json/parse/parseTest.go
@@ -86,6 +86,9 @@ func (p *Parser) processTest(testObj oj.OJsonObject) (*mj.Test, error) {
 			return nil, fmt.Errorf("unknown test: %s", kvp.Key)
 		}
 	}
+	if test.PostState == nil {
+		return nil, errors.New("missing postState in test")
+	}
 
 	return &test, nil
 }
-- 
2.43.0


From ffcb4e57ec5c22702bd793acfb63cc371c4020c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 38/80] fix: write the expected URI of a token instead of its
 creator

---
 mandos-go/json/write/writeESDTCheck.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 6ce84de..a4b29bd 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -74,7 +74,7 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
 	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
-		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Creator))
+		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
 	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
-- 
2.43.0


From e30dc196ac102b04d1ef9b58f3563ccaf2812b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 39/80] fix: keep empty and arbitrary expectations about token
 instances when writing a scenario

---
 mandos-go/json/write/writeESDTCheck.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index a4b29bd..62e31f3 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -64,19 +64,19 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 	if len(esdtInstance.Balance.Original) > 0 {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
-	if !esdtInstance.Creator.Unspecified && len(esdtInstance.Creator.Value) > 0 {
+	if !esdtInstance.Creator.Unspecified {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
 	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
-	if !esdtInstance.Hash.Unspecified && len(esdtInstance.Hash.Value) > 0 {
+	if !esdtInstance.Hash.Unspecified {
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
-	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
+	if !esdtInstance.Uri.Unspecified {
 		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
-	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
+	if !esdtInstance.Attributes.Unspecified {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
 	}
 }
-- 
2.43.0


From 3d0239c83fec97a0ff8414e90c7c6c84a66b727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 40/80] fix: keep all the fields of tokens when writing a
 scenario

---
 mandos-go/json/write/writeESDT.go      | 11 +++++++++-
 mandos-go/json/write/writeESDTCheck.go | 28 ++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index 76c609b..c798363 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -96,7 +96,16 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
 	}
-	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
+	esdtInstance := esdtItem.Instances[0]
+	if len(esdtInstance.Nonce.Original) > 0 ||
+		len(esdtInstance.Creator.Original) > 0 ||
+		len(esdtInstance.Royalties.Original) > 0 ||
+		len(esdtInstance.Hash.Original) > 0 ||
+		len(esdtInstance.Uri.Value) > 0 ||
+		len(esdtInstance.Attributes.Original) > 0 {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
 		return false
 	}
 	if len(esdtItem.Roles) > 0 {
diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 62e31f3..801fab8 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -67,7 +67,7 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 	if !esdtInstance.Creator.Unspecified {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
-	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
+	if !esdtInstance.Royalties.Unspecified {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
 	if !esdtInstance.Hash.Unspecified {
@@ -85,7 +85,10 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
 	}
-	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
+	if !isCompactCheckESDTInstance(esdtItem.Instances[0]) {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
 		return false
 	}
 	if len(esdtItem.Roles) > 0 {
@@ -96,3 +99,24 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	}
 	return true
 }
+
+// in the compact form only the balance is given, and all the other fields are expected to be empty
+func isCompactCheckESDTInstance(esdtInstance *mj.CheckESDTInstance) bool {
+	if len(esdtInstance.Nonce.Original) > 0 {
+		return false
+	}
+	if esdtInstance.Royalties.Unspecified || len(esdtInstance.Royalties.Original) > 0 {
+		return false
+	}
+	for _, field := range []mj.JSONCheckBytes{
+		esdtInstance.Creator,
+		esdtInstance.Hash,
+		esdtInstance.Uri,
+		esdtInstance.Attributes,
+	} {
+		if field.Unspecified || field.Original != nil {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 27d57711c1e7728fd1cdcb7bcd93b588e5d62e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 41/80] fix: keep the permission for more tokens when writing a
 scenario

---
 mandos-go/json/write/writeAccount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 3360263..8b3dba0 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -56,7 +56,7 @@ func checkAccountsToOJ(checkAccounts *mj.CheckAccounts) oj.OJsonObject {
 		if checkAccount.IgnoreESDT {
 			acctOJ.Put("esdt", stringToOJ("*"))
 		} else {
-			if len(checkAccount.CheckESDTData) > 0 {
+			if len(checkAccount.CheckESDTData) > 0 || checkAccount.MoreESDTTokensAllowed {
 				acctOJ.Put("esdt", checkESDTDataToOJ(
 					checkAccount.CheckESDTData, checkAccount.MoreESDTTokensAllowed))
 			}
-- 
2.43.0


From 4aa61cb06a1216a2b1bfe4958a5945c191049f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 42/80] fix: keep the shard of accounts when writing a scenario

---
 mandos-go/json/write/writeAccount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 8b3dba0..1c1a91a 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -13,6 +13,9 @@ func AccountsToOJ(accounts []*mj.Account) oj.OJsonObject {
 		if len(account.Comment) > 0 {
 			acctOJ.Put("comment", stringToOJ(account.Comment))
 		}
+		if len(account.Shard.Original) > 0 {
+			acctOJ.Put("shard", uint64ToOJ(account.Shard))
+		}
 		acctOJ.Put("nonce", uint64ToOJ(account.Nonce))
 		acctOJ.Put("balance", bigIntToOJ(account.Balance))
 		if len(account.ESDTData) > 0 {
-- 
2.43.0


From 11d10fe5fe685d43795c07a6dba22bac2e3b586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 43/80] fix: write log entries with unspecified fields as valid
 JSON

---
 mandos-go/json/parse/parseLogs.go   |  6 +++++-
 mandos-go/json/write/writeCommon.go | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mandos-go/json/parse/parseLogs.go b/mandos-go/json/parse/parseLogs.go
index 24dd80b..6a311d2 100644
--- a/mandos-go/json/parse/parseLogs.go
+++ b/mandos-go/json/parse/parseLogs.go
@@ -20,7 +20,11 @@ func (p *Parser) processLogList(logsRaw oj.OJsonObject) ([]*mj.LogEntry, error)
 		if !isMap {
 			return nil, errors.New("unmarshalled log entry is not a map")
 		}
-		logEntry := mj.LogEntry{}
+		logEntry := mj.LogEntry{
+			Address:    mj.JSONCheckBytesUnspecified(),
+			Identifier: mj.JSONCheckBytesUnspecified(),
+			Data:       mj.JSONCheckBytesUnspecified(),
+		}
 		for _, kvp := range logMap.OrderedKV {
 			switch kvp.Key {
 			case "address":
diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index 8d0d21c..dee9f17 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -62,8 +62,12 @@ func LogToString(logEntry *mj.LogEntry) string {
 
 func logToOJ(logEntry *mj.LogEntry) oj.OJsonObject {
 	logOJ := oj.NewMap()
-	logOJ.Put("address", checkBytesToOJ(logEntry.Address))
-	logOJ.Put("identifier", checkBytesToOJ(logEntry.Identifier))
+	if !logEntry.Address.IsUnspecified() {
+		logOJ.Put("address", checkBytesToOJ(logEntry.Address))
+	}
+	if !logEntry.Identifier.IsUnspecified() {
+		logOJ.Put("identifier", checkBytesToOJ(logEntry.Identifier))
+	}
 
 	var topicsList []oj.OJsonObject
 	for _, topic := range logEntry.Topics {
@@ -72,7 +76,9 @@ func logToOJ(logEntry *mj.LogEntry) oj.OJsonObject {
 	topicsOJ := oj.OJsonList(topicsList)
 	logOJ.Put("topics", &topicsOJ)
 
-	logOJ.Put("data", checkBytesToOJ(logEntry.Data))
+	if !logEntry.Data.IsUnspecified() {
+		logOJ.Put("data", checkBytesToOJ(logEntry.Data))
+	}
 
 	return logOJ
 }
-- 
2.43.0


From 715bdb3b40f6805680c55e7507e03bf6b19d8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 44/80] fix: write values without an original expression as hex
 numbers

---
 mandos-go/json/write/writeCommon.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index dee9f17..05c5577 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -126,7 +126,7 @@ func checkBigIntToOJ(i mj.JSONCheckBigInt) oj.OJsonObject {
 
 func bytesFromStringToString(bytes mj.JSONBytesFromString) string {
 	if len(bytes.Original) == 0 && len(bytes.Value) > 0 {
-		bytes.Original = hex.EncodeToString(bytes.Value)
+		bytes.Original = "0x" + hex.EncodeToString(bytes.Value)
 	}
 	return bytes.Original
 }
@@ -136,15 +136,15 @@ func bytesFromStringToOJ(bytes mj.JSONBytesFromString) oj.OJsonObject {
 }
 
 func bytesFromTreeToOJ(bytes mj.JSONBytesFromTree) oj.OJsonObject {
-	if bytes.OriginalEmpty() {
-		bytes.Original = &oj.OJsonString{Value: hex.EncodeToString(bytes.Value)}
+	if bytes.OriginalEmpty() && len(bytes.Value) > 0 {
+		bytes.Original = &oj.OJsonString{Value: "0x" + hex.EncodeToString(bytes.Value)}
 	}
 	return bytes.Original
 }
 
 func checkBytesToOJ(checkBytes mj.JSONCheckBytes) oj.OJsonObject {
 	if checkBytes.OriginalEmpty() && len(checkBytes.Value) > 0 {
-		checkBytes.Original = &oj.OJsonString{Value: hex.EncodeToString(checkBytes.Value)}
+		checkBytes.Original = &oj.OJsonString{Value: "0x" + hex.EncodeToString(checkBytes.Value)}
 	}
 	return checkBytes.Original
 }
-- 
2.43.0


From ea6715831eaf957f599a2938656ba83eb55092e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 45/80] fix: do not write empty addresses, which cannot be read
 back, into scenarios

---
 mandos-go/json/write/writeScenario.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mandos-go/json/write/writeScenario.go b/mandos-go/json/write/writeScenario.go
index da11b2d..4d76b57 100644
--- a/mandos-go/json/write/writeScenario.go
+++ b/mandos-go/json/write/writeScenario.go
@@ -93,10 +93,10 @@ func ScenarioToOrderedJSON(scenario *mj.Scenario) oj.OJsonObject {
 
 func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ := oj.NewMap()
-	if tx.Type.HasSender() {
+	if tx.Type.HasSender() && len(tx.From.Value) > 0 {
 		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
 	}
-	if tx.Type.HasReceiver() {
+	if tx.Type.HasReceiver() && len(tx.To.Value) > 0 {
 		transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
 	}
 	if tx.Type.HasValue() {
@@ -134,9 +134,13 @@ func newAddressMocksToOJ(newAddressMocks []*mj.NewAddressMock) oj.OJsonObject {
 	var namList []oj.OJsonObject
 	for _, namEntry := range newAddressMocks {
 		namOJ := oj.NewMap()
-		namOJ.Put("creatorAddress", bytesFromStringToOJ(namEntry.CreatorAddress))
+		if len(namEntry.CreatorAddress.Value) > 0 {
+			namOJ.Put("creatorAddress", bytesFromStringToOJ(namEntry.CreatorAddress))
+		}
 		namOJ.Put("creatorNonce", uint64ToOJ(namEntry.CreatorNonce))
-		namOJ.Put("newAddress", bytesFromStringToOJ(namEntry.NewAddress))
+		if len(namEntry.NewAddress.Value) > 0 {
+			namOJ.Put("newAddress", bytesFromStringToOJ(namEntry.NewAddress))
+		}
 		namList = append(namList, namOJ)
 	}
 	namOJList := oj.OJsonList(namList)
-- 
2.43.0


From 87ee25bd0c90532512aaa22a3eefb4d54bdfcf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 46/80] fix: write tests without block headers and with token
 transfers

---
 mandos-go/json/write/writeTest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index 8d38ccc..744d8a4 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -49,6 +49,9 @@ func transactionToTestOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ.Put("function", stringToOJ(tx.Function))
 	transactionOJ.Put("gasLimit", uint64ToOJ(tx.GasLimit))
 	transactionOJ.Put("value", bigIntToOJ(tx.Value))
+	if tx.ESDTValue != nil {
+		transactionOJ.Put("esdt", esdtTxDataToOJ(tx.ESDTValue))
+	}
 	transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
 
 	var argList []oj.OJsonObject
@@ -84,6 +87,9 @@ func blockToOJ(block *mj.Block) oj.OJsonObject {
 	txsOJ := oj.OJsonList(txList)
 	blockOJ.Put("transactions", &txsOJ)
 
+	if block.BlockHeader == nil {
+		return blockOJ
+	}
 	blockHeaderOJ := oj.NewMap()
 	blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
 	blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
-- 
2.43.0


From e2a77514f68769e1ca7e36ce872615d9997fb10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 47/80] fix: compare the owners of accounts with the expected
 ones

---
 arwenmandos/stepCheckAccounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..abaf30f 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -82,6 +82,17 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.CodeHint))
 		}
 
+		// currently ignoring owners that are unspecified in the json
+		if !expectedAcct.Owner.IsUnspecified() &&
+			!expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		// currently ignoring asyncCallData that is unspecified in the json
 		if !expectedAcct.AsyncCallData.IsUnspecified() &&
 			!expectedAcct.AsyncCallData.Check([]byte(matchingAcct.AsyncCallData)) {
-- 
2.43.0


From dc76351187054bd2ea30e1ae5bf06585837df046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 48/80] fix: compare explicitly expected values under reserved
 storage keys

---
 arwenmandos/stepCheckAccounts.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index abaf30f..f3e2a4e 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -135,12 +135,13 @@ func (ae *ArwenTestExecutor) checkAccountStorage(expectedAcct *mj.CheckAccount,
 	}
 	storageError := ""
 	for k := range allKeys {
-		// ignore all reserved "ELROND..." keys
-		if strings.HasPrefix(k, vmcommon.ElrondProtectedKeyPrefix) {
+		want, specified := expectedStorage[k]
+
+		// ignore all reserved "ELROND..." keys, unless they are explicitly expected
+		if !specified && strings.HasPrefix(k, vmcommon.ElrondProtectedKeyPrefix) {
 			continue
 		}
 
-		want, specified := expectedStorage[k]
 		if !specified {
 			if expectedAcct.MoreStorageAllowed {
 				// if `"+": ""` was written in the test, any unspecified entries are allowed,
-- 
2.43.0


From 26f05f74d628c16716817df37c1fc7c1ff0179e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 49/80] fix: compare the frozen flag of tokens with the
 expected one

---
 arwenmandos/stepCheckAccounts.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index f3e2a4e..908d249 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -11,6 +11,7 @@ import (
 	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
 	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
 
@@ -304,6 +305,15 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 				expectedInstance.Balance.Original,
 				accountInstance.Value))
 		}
+		isFrozen := builtInFunctions.ESDTUserMetadataFromBytes(accountInstance.Properties).Frozen
+		if len(expectedToken.Frozen.Original) > 0 && !expectedToken.Frozen.CheckBool(isFrozen) {
+			errors = append(errors, fmt.Errorf(
+				"for token: %s, nonce: %d: Bad frozen flag. Want: \"%s\". Have: %v",
+				tokenName,
+				nonce,
+				expectedToken.Frozen.Original,
+				isFrozen))
+		}
 		if !expectedInstance.Creator.IsUnspecified() &&
 			!expectedInstance.Creator.Check(accountInstance.TokenMetaData.Creator) {
 			errors = append(errors, fmt.Errorf(
-- 
2.43.0


From 3cbddb5c1300de34ec98a42fe08c234de4202857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 50/80] fix: check gas again after external steps that do not
 check it

---
 arwenmandos/execScenario.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index ef118d9..62eab1f 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -63,6 +63,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	fileResolverBackup := ae.fileResolver
+	checkGasBackup := ae.checkGas
 	clonedFileResolver := ae.fileResolver.Clone()
 	externalStepsRunner := mc.NewScenarioRunner(ae, clonedFileResolver)
 
@@ -73,6 +74,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	ae.fileResolver = fileResolverBackup
+	ae.checkGas = checkGasBackup
 
 	return nil
 }
-- 
2.43.0


From 7f9b8ac126132f3568ef6075f22e56d1a40bb236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 51/80] fix: apply the gas schedule of each scenario after a
 reset

---
 arwenmandos/execScenario.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index 62eab1f..1ef7941 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -11,6 +11,7 @@ import (
 // Is called in RunAllJSONScenariosInDirectory, but not in RunSingleJSONScenario.
 func (ae *ArwenTestExecutor) Reset() {
 	ae.World.Clear()
+	ae.mandosGasScheduleLoaded = false
 }
 
 // ExecuteScenario executes an individual test.
-- 
2.43.0


From fe77eb3108bb07d9f0c26fb1d49a597bb7b62342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 52/80] fix: set the last nonce of tokens without instances

---
 arwenmandos/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index f024805..fb97585 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -70,12 +70,12 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			if err != nil {
 				return nil, err
 			}
-			err = account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
-			if err != nil {
-				return nil, err
-			}
 		}
-		err := account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
+		err := account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
+		if err != nil {
+			return nil, err
+		}
+		err = account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 462080f5ebbfacdb379d8fc1cf39f762079b4489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 53/80] fix: roll the world back when a transaction of a
 scenario fails outside the VM

---
 arwenmandos/stepRunTx.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/stepRunTx.go b/arwenmandos/stepRunTx.go
index 46a9f0c..3cacf52 100644
--- a/arwenmandos/stepRunTx.go
+++ b/arwenmandos/stepRunTx.go
@@ -43,12 +43,10 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 
 		gasForExecution = tx.GasLimit.Value
 		if tx.ESDTValue != nil {
-			gasRemaining, err := ae.directESDTTransferFromTx(tx)
+			gasForExecution, err = ae.directESDTTransferFromTx(tx)
 			if err != nil {
 				return nil, err
 			}
-
-			gasForExecution = gasRemaining
 		}
 	}
 
@@ -86,12 +84,13 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 				return nil, err
 			}
 		default:
-			return nil, errors.New("unknown transaction type")
+			err = errors.New("unknown transaction type")
+			return nil, err
 		}
 	}
 
 	if output.ReturnCode == vmcommon.Ok {
-		err := ae.updateStateAfterTx(tx, output)
+		err = ae.updateStateAfterTx(tx, output)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c7c4518d6b49e49cc6b5de195b716669060a90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 54/80] fix: keep the snapshot of the mock world that was
 reverted to

---
 mock/world/worldAccountsAdapter.go | 6 ++++--
 mock/world/worldUpdate.go          | 8 +++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mock/world/worldAccountsAdapter.go b/mock/world/worldAccountsAdapter.go
index 28a4920..950280d 100644
--- a/mock/world/worldAccountsAdapter.go
+++ b/mock/world/worldAccountsAdapter.go
@@ -91,10 +91,12 @@ func (m *MockAccountsAdapter) RevertToSnapshot(snapshotIndex int) error {
 	}
 
 	snapshot := m.Snapshots[snapshotIndex]
-	m.Snapshots = m.Snapshots[:snapshotIndex]
+
+	// the snapshot reverted to remains available, for it may be reverted to again
+	m.Snapshots = m.Snapshots[:snapshotIndex+1]
 
 	// TODO should probably set BalanceDelta of all accounts to 0 as well?
-	return m.World.AcctMap.LoadAccountStorageFrom(snapshot)
+	return m.World.AcctMap.LoadAccountStorageFrom(snapshot.Clone())
 }
 
 // GetNumCheckpoints -
diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 7493a76..c97fcdb 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -111,5 +111,11 @@ func (b *MockWorld) CommitChanges() error {
 
 // RollbackChanges should be called after the VM test has run, if the tx has failed
 func (b *MockWorld) RollbackChanges() error {
-	return b.AccountsAdapter.RevertToSnapshot(0)
+	err := b.AccountsAdapter.RevertToSnapshot(0)
+	if err != nil {
+		return err
+	}
+
+	// none of the snapshots of this tx may be seen by the next one
+	return b.CommitChanges()
 }
-- 
2.43.0


From 2e6b1545b05acf4bb6877cb7d111c32fe0e31534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 55/80] fix: undo failed changes of owners, user names and
 rewards in the mock world

---
 mock/world/builtinFunctionsWrapper.go | 10 +++++++++-
 mock/world/worldAccountMap.go         |  8 ++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mock/world/builtinFunctionsWrapper.go b/mock/world/builtinFunctionsWrapper.go
index 0d87502..ba5dad6 100644
--- a/mock/world/builtinFunctionsWrapper.go
+++ b/mock/world/builtinFunctionsWrapper.go
@@ -72,7 +72,15 @@ func (bf *BuiltinFunctionsWrapper) ProcessBuiltInFunction(input *vmcommon.Contra
 		return nil, err
 	}
 
-	return function.ProcessBuiltinFunction(caller, recipient, input)
+	output, err := function.ProcessBuiltinFunction(caller, recipient, input)
+	if err != nil {
+		return nil, err
+	}
+
+	// also the changes which are not made to the storage must be undone by a
+	// revert to an earlier snapshot, but not by one to a later snapshot
+	bf.World.CreateStateBackup()
+	return output, nil
 }
 
 // GetBuiltinFunctionNames returns the list of defined builtin-in functions.
diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index ce386d3..8165c74 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -83,8 +83,9 @@ func (am AccountMap) Clone() AccountMap {
 	return clone
 }
 
-// LoadAccountStorageFrom reassigns the storage of the accounts to the storage
-// of the accounts found in otherAM; it only does a reference change, not a deep copy.
+// LoadAccountStorageFrom reassigns the storage of the accounts, and the fields
+// that built-in functions change directly, to those of the accounts found in
+// otherAM; it only does a reference change, not a deep copy.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
 		otherAccount, otherExists := otherAM[address]
@@ -94,6 +95,9 @@ func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 				hex.EncodeToString([]byte(address)))
 		}
 		account.Storage = otherAccount.Storage
+		account.OwnerAddress = otherAccount.OwnerAddress
+		account.Username = otherAccount.Username
+		account.DeveloperReward = otherAccount.DeveloperReward
 	}
 
 	return nil
-- 
2.43.0


From 517c08de2d0fd657fef89cd22a57baf5d7b5888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 56/80] fix: do not crash on accounts missing from the mock
 world

---
 mock/world/mockESDT.go | 15 +++++++++++++--
 mock/world/worldDef.go | 13 ++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mock/world/mockESDT.go b/mock/world/mockESDT.go
index faa376a..91382f8 100644
--- a/mock/world/mockESDT.go
+++ b/mock/world/mockESDT.go
@@ -20,8 +20,11 @@ var ESDTNonceKeyPrefix = []byte(vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESD
 // GetTokenBalance returns the ESDT balance of an account for the given token
 // key (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) GetTokenBalance(address []byte, tokenKey []byte) (*big.Int, error) {
-	account := bf.World.AcctMap.GetAccount(address)
-	return account.GetTokenBalance(tokenKey)
+	tokenData, err := bf.GetTokenData(address, tokenKey)
+	if err != nil {
+		return nil, err
+	}
+	return tokenData.Value, nil
 }
 
 // SetTokenBalance sets the ESDT balance of an account for the given token
@@ -35,6 +38,10 @@ func (bf *BuiltinFunctionsWrapper) SetTokenBalance(address []byte, tokenKey []by
 // (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) GetTokenData(address []byte, tokenKey []byte) (*esdt.ESDigitalToken, error) {
 	account := bf.World.AcctMap.GetAccount(address)
+	if account == nil {
+		// a missing account has no tokens
+		account = &Account{}
+	}
 	return account.GetTokenData(tokenKey)
 }
 
@@ -61,6 +68,10 @@ func (bf *BuiltinFunctionsWrapper) PerformDirectESDTTransfer(
 	gasLimit uint64,
 	gasPrice uint64,
 ) (uint64, error) {
+	if bf.World.AcctMap.GetAccount(receiver) == nil {
+		return 0, fmt.Errorf("ESDT transfer to missing account %x", receiver)
+	}
+
 	esdtTransferInput := &vmcommon.ContractCallInput{
 		VMInput: vmcommon.VMInput{
 			CallerAddr:  sender,
diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index dd0ecc5..88ee195 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -101,9 +101,14 @@ func (b *MockWorld) NumberOfShards() uint32 {
 	return maxShardID + 1
 }
 
-// ComputeId -
+// ComputeId yields the shard of the given account; missing accounts are in
+// the shard they would be created in
 func (b *MockWorld) ComputeId(address []byte) uint32 {
-	return b.AcctMap.GetAccount(address).ShardID
+	account := b.AcctMap.GetAccount(address)
+	if account == nil {
+		return 0
+	}
+	return account.ShardID
 }
 
 // SelfId -
@@ -113,9 +118,7 @@ func (b *MockWorld) SelfId() uint32 {
 
 // SameShard -
 func (b *MockWorld) SameShard(firstAddress []byte, secondAddress []byte) bool {
-	firstAccount := b.AcctMap.GetAccount(firstAddress)
-	secondAccount := b.AcctMap.GetAccount(secondAddress)
-	return firstAccount.ShardID == secondAccount.ShardID
+	return b.ComputeId(firstAddress) == b.ComputeId(secondAddress)
 }
 
 // CommunicationIdentifier -
-- 
2.43.0


From e333900800181b69b57551eef728d916e5edde75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 57/80] fix: set the owner of contracts deployed to existing
 accounts of the mock world

---
 mock/world/worldUpdate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index c97fcdb..23d8b64 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -82,6 +82,10 @@ func (b *MockWorld) UpdateAccountFromOutputAccount(modAcct *vmcommon.OutputAccou
 		acct.Nonce = modAcct.Nonce
 	}
 	if len(modAcct.Code) > 0 {
+		if len(acct.Code) == 0 {
+			// the address may have received funds before the deployment
+			acct.OwnerAddress = modAcct.CodeDeployerAddress
+		}
 		// TODO: set CodeMetadata according to code metdata coming from VM
 		acct.SetCodeAndMetadata(modAcct.Code, &vmcommon.CodeMetadata{
 			Payable:     true,
-- 
2.43.0


From 44de7a314551ea719aa1cee5a833d801371cf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 58/80] fix: accept token instances without a balance in
 scenarios

---
 arwenmandos/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index fb97585..e50c8f7 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -52,6 +52,9 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			tokenNonce := instance.Nonce.Value
 			tokenKey := worldmock.MakeTokenKey(tokenName, tokenNonce)
 			tokenBalance := instance.Balance.Value
+			if tokenBalance == nil {
+				tokenBalance = big.NewInt(0)
+			}
 			tokenData := &esdt.ESDigitalToken{
 				Value:      tokenBalance,
 				Type:       uint32(vmcommon.Fungible),
-- 
2.43.0


From 37dc15e98689fcee81fa43f9d8577b483b308605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 59/80] fix: keep token instances without fields when writing a
 scenario

---
 mandos-go/json/write/writeESDT.go      | 3 ++-
 mandos-go/json/write/writeESDTCheck.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index c798363..5d49082 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -37,7 +37,8 @@ func esdtItemToOJ(esdtItem *mj.ESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 801fab8..5aba030 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -26,7 +26,8 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendCheckESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
-- 
2.43.0


From 2684f4ca68a9ae2e3b871f8b5317b402b09d7f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 60/80] fix: keep zero nonces and balances expected of token
 instances when writing a scenario

---
 mandos-go/json/write/writeESDTCheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 5aba030..c18c661 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -59,10 +59,10 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 }
 
 func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *oj.OJsonMap) {
-	if len(esdtInstance.Nonce.Original) > 0 {
+	if !esdtInstance.Nonce.Unspecified {
 		targetOj.Put("nonce", checkUint64ToOJ(esdtInstance.Nonce))
 	}
-	if len(esdtInstance.Balance.Original) > 0 {
+	if !esdtInstance.Balance.Unspecified {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
 	if !esdtInstance.Creator.Unspecified {
-- 
2.43.0


From 783627b87ab376dd8b0f05d94e0ca9e77809e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 61/80] fix: report token instances missing from the expected
 state instead of crashing

---
 arwenmandos/stepCheckAccounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 908d249..8b712f3 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -286,6 +286,12 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 			expectedInstance = &mj.CheckESDTInstance{
 				Nonce:   mj.JSONCheckUint64{Value: nonce, Original: ""},
 				Balance: mj.JSONCheckBigInt{Value: big.NewInt(0), Original: ""},
+				// only the missing balance is reported
+				Creator:    mj.JSONCheckBytesUnspecified(),
+				Royalties:  mj.JSONCheckUint64Unspecified(),
+				Hash:       mj.JSONCheckBytesUnspecified(),
+				Uri:        mj.JSONCheckBytesUnspecified(),
+				Attributes: mj.JSONCheckBytesUnspecified(),
 			}
 		} else if accountInstance == nil {
 			accountInstance = &esdt.ESDigitalToken{
-- 
2.43.0


From 4ec1da93c91d5a30d5cf0c618f1184cc39936297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 62/80] fix: refuse indirect call arguments that cannot be read
 instead of dropping them

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index c586e11..2f0b903 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From 291d58ae91ff819914f4d059a8c1710b9d1dd8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 63/80] fix: refuse argument counts whose length table
 overflows 32 bits

---
 arwen/elrondapi/elrondei.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 2f0b903..90cb9b2 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -87,6 +87,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	builtinMath "math"
 	"math/big"
 	"unsafe"
 
@@ -2990,6 +2991,10 @@ func getArgumentsFromMemory(
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
 
+	if numArguments > builtinMath.MaxInt32/4 {
+		return nil, 0, fmt.Errorf("too many arguments (%d): %w", numArguments, arwen.ErrBadBounds)
+	}
+
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From f09930f7072abfa0cd36bd76cbcea01d3815c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 64/80] fix: refuse to load more bytes than the guest memory
 has

---
 arwen/contexts/runtime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 744502d..bf6b290 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -864,6 +864,7 @@ func (context *runtimeContext) MemLoad(offset int32, length int32) ([]byte, erro
 	isOffsetTooLarge := uint32(offset) > memoryLength
 	isRequestedEndTooLarge := uint32(requestedEnd) > memoryLength
 	isLengthNegative := length < 0
+	isLengthTooLarge := uint32(length) > memoryLength
 
 	if isOffsetTooSmall || isOffsetTooLarge {
 		return nil, fmt.Errorf("mem load: %w", arwen.ErrBadBounds)
@@ -871,6 +872,9 @@ func (context *runtimeContext) MemLoad(offset int32, length int32) ([]byte, erro
 	if isLengthNegative {
 		return nil, fmt.Errorf("mem load: %w", arwen.ErrNegativeLength)
 	}
+	if isLengthTooLarge {
+		return nil, fmt.Errorf("mem load: %w", arwen.ErrBadBounds)
+	}
 
 	result := make([]byte, length)
 	if isRequestedEndTooLarge {
-- 
2.43.0


From 51246d398881feaec7fddce6c7f2c99926c0f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 65/80] fix: price and read the topics of writeLog without
 32-bit overflow or an unbounded allocation

---
 arwen/elrondapi/elrondei.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 90cb9b2..89c3a74 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2005,7 +2005,8 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 	metering := arwen.GetMeteringContext(context)
 
 	gasToUse := metering.GasSchedule().ElrondAPICost.Log
-	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, uint64(numTopics*arwen.HashLen+dataLength))
+	logLength := int64(numTopics)*arwen.HashLen + int64(dataLength)
+	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, uint64(logLength))
 	gasToUse = math.AddUint64(gasToUse, gas)
 	metering.UseGas(gasToUse)
 
@@ -2014,16 +2015,21 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 		return
 	}
 
-	topics, err := arwen.GuardedMakeByteSlice2D(numTopics)
+	if numTopics < 0 {
+		err = fmt.Errorf("writeLog: negative number of topics (%d)", numTopics)
+	}
 	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return
 	}
 
+	topics := make([][]byte, 0)
 	for i := int32(0); i < numTopics; i++ {
-		topics[i], err = runtime.MemLoad(topicPtr+i*arwen.HashLen, arwen.HashLen)
+		topic, err := runtime.MemLoad(topicPtr+i*arwen.HashLen, arwen.HashLen)
 		if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 			return
 		}
+
+		topics = append(topics, topic)
 	}
 
 	output.WriteLog(runtime.GetSCAddress(), topics, log)
-- 
2.43.0


From 267a79b0705eaefd7483f1dec3bee901db919976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 66/80] fix: give a callback the gas which was locked for it

The metering context adds the locked gas to the provided gas after the runtime
context has copied the input, so the initial gas was deducted from a provision
without the locked gas and every callback with locked gas failed with
"input and output gas does not match".
---
 arwen/host/execution.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index fdedde2..ca1be95 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -153,8 +153,10 @@ func (host *vmHost) doRunSmartContractCall(input *vmcommon.ContractCallInput) (v
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// the metering context unlocks the gas of a callback, which must happen
+	// before the runtime context makes its own copy of the input
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From 45f974d228c0db049eebe52baae5a7c88d06e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 67/80] fix: verify the code of contracts deployed by other
 contracts

The instance of an indirectly deployed contract was started as if its code was
already known, so the code was never verified: modules without memory, with
exported functions which have parameters, or under reserved names were
deployed.
---
 arwen/host/execution.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index ca1be95..78e49b4 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -627,7 +627,10 @@ func (host *vmHost) execute(input *vmcommon.ContractCallInput) error {
 	// Replace the current Wasmer instance of the Runtime with a new one; this
 	// assumes that the instance was preserved on the Runtime instance stack
 	// before calling executeSmartContractCall().
-	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), false)
+	// Only a deployment allows the init function; its code is new and must be
+	// verified.
+	newCode := input.AllowInitFunction
+	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), newCode)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f8e6574d064eda0b48be63102e6c735e6d738c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 68/80] fix: keep the gas schedule in force when a new one is
 refused

---
 arwen/host/arwen.go         | 2 +-
 ipc/nodepart/arwenDriver.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..7b24053 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -305,13 +305,13 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 3b751ca..1d9650e 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"syscall"
 
+	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 	logger "github.com/ElrondNetwork/elrond-go-logger"
@@ -260,8 +261,14 @@ func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[strin
 	driver.operationsMutex.Lock()
 	defer driver.operationsMutex.Unlock()
 
+	_, err := config.CreateGasConfig(newGasSchedule)
+	if err != nil {
+		log.Error("GasScheduleChange invalid schedule, remained with the old one", "error", err)
+		return
+	}
+
 	driver.arwenArguments.GasSchedule = newGasSchedule
-	err := driver.RestartArwenIfNecessary()
+	err = driver.RestartArwenIfNecessary()
 	if err != nil {
 		log.Error("GasScheduleChange RestartArwenIfNecessary", "error", err)
 		return
-- 
2.43.0


From 73fcb49548844aac2c89db91680ec693d3626328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 69/80] fix: refuse instruction prices which do not fit in 32
 bits

---
 config/gasSchedule.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/config/gasSchedule.go b/config/gasSchedule.go
index 85a434b..10ec1a0 100644
--- a/config/gasSchedule.go
+++ b/config/gasSchedule.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/mitchellh/mapstructure"
@@ -70,6 +71,12 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 		return nil, err
 	}
 
+	for name, cost := range gasMap["WASMOpcodeCost"] {
+		if cost > math.MaxUint32 {
+			return nil, fmt.Errorf("Gas cost for operation %s exceeds 32 bits.", name)
+		}
+	}
+
 	opcodeCosts := &WASMOpcodeCost{}
 	err = mapstructure.Decode(gasMap["WASMOpcodeCost"], opcodeCosts)
 	if err != nil {
-- 
2.43.0


From 77bae229af0f3c94d585b2fc52109b1cae63b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 70/80] fix: keep binary addresses and storage keys when a
 debug world is stored

---
 arwendebug/world.go | 64 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/arwendebug/world.go b/arwendebug/world.go
index bdb314d..b8ae26c 100644
--- a/arwendebug/world.go
+++ b/arwendebug/world.go
@@ -11,8 +11,12 @@ import (
 	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 )
 
+// worldDataModel is the stored form of a world. The addresses of the accounts,
+// the keys of their storage and their async call data are binary strings,
+// which JSON cannot hold; they are stored hex-encoded, as HexKeys tells.
 type worldDataModel struct {
 	ID       string
+	HexKeys  bool
 	Accounts worldmock.AccountMap
 }
 
@@ -31,8 +35,13 @@ func newWorldDataModel(worldID string) *worldDataModel {
 
 // newWorld creates a new debugging world
 func newWorld(dataModel *worldDataModel) (*world, error) {
+	accounts, err := dataModel.decodeAccounts()
+	if err != nil {
+		return nil, err
+	}
+
 	blockchainHook := worldmock.NewMockWorld()
-	blockchainHook.AcctMap = dataModel.Accounts
+	blockchainHook.AcctMap = accounts
 
 	vm, err := host.NewArwenVM(
 		blockchainHook,
@@ -143,6 +152,57 @@ func (w *world) toDataModel() *worldDataModel {
 
 	return &worldDataModel{
 		ID:       w.id,
-		Accounts: accounts,
+		HexKeys:  true,
+		Accounts: encodeAccounts(accounts),
+	}
+}
+
+func encodeAccounts(accounts worldmock.AccountMap) worldmock.AccountMap {
+	encoded := worldmock.NewAccountMap()
+	for address, account := range accounts {
+		storage := make(map[string][]byte, len(account.Storage))
+		for key, value := range account.Storage {
+			storage[toHex([]byte(key))] = value
+		}
+
+		account.Storage = storage
+		account.AsyncCallData = toHex([]byte(account.AsyncCallData))
+		encoded[toHex([]byte(address))] = account
 	}
+
+	return encoded
+}
+
+func (dataModel *worldDataModel) decodeAccounts() (worldmock.AccountMap, error) {
+	if !dataModel.HexKeys {
+		return dataModel.Accounts, nil
+	}
+
+	accounts := worldmock.NewAccountMap()
+	for addressHex, account := range dataModel.Accounts {
+		address, err := fromHex(addressHex)
+		if err != nil {
+			return nil, err
+		}
+
+		storage := make(map[string][]byte, len(account.Storage))
+		for keyHex, value := range account.Storage {
+			key, err := fromHex(keyHex)
+			if err != nil {
+				return nil, err
+			}
+			storage[string(key)] = value
+		}
+
+		asyncCallData, err := fromHex(account.AsyncCallData)
+		if err != nil {
+			return nil, err
+		}
+
+		account.Storage = storage
+		account.AsyncCallData = string(asyncCallData)
+		accounts[string(address)] = account
+	}
+
+	return accounts, nil
 }
-- 
2.43.0


From 1946b9e5c6e49252e4e1861af818233cbee1d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 71/80] fix: restore the list of code updates together with the
 output state

The list of accounts with new code was not part of the stacked state. When a
nested upgrade or deployment failed, its entry stayed, and the old code of the
account was reported as an update with empty metadata and no deployer.
---
 arwen/contexts/output.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index e171988..6bb018c 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -19,6 +19,9 @@ type outputContext struct {
 	outputState *vmcommon.VMOutput
 	stateStack  []*vmcommon.VMOutput
 	codeUpdates map[string]struct{}
+
+	// codeUpdatesStack holds the codeUpdates of the states in stateStack
+	codeUpdatesStack []map[string]struct{}
 }
 
 // NewOutputContext creates a new outputContext
@@ -69,6 +72,20 @@ func (context *outputContext) PushState() {
 	newState := newVMOutput()
 	mergeVMOutputs(newState, context.outputState)
 	context.stateStack = append(context.stateStack, newState)
+
+	codeUpdates := make(map[string]struct{}, len(context.codeUpdates))
+	for address := range context.codeUpdates {
+		codeUpdates[address] = struct{}{}
+	}
+	context.codeUpdatesStack = append(context.codeUpdatesStack, codeUpdates)
+}
+
+// popCodeUpdates removes and returns the latest entry of the stack of code updates
+func (context *outputContext) popCodeUpdates() map[string]struct{} {
+	last := len(context.codeUpdatesStack) - 1
+	codeUpdates := context.codeUpdatesStack[last]
+	context.codeUpdatesStack = context.codeUpdatesStack[:last]
+	return codeUpdates
 }
 
 // PopSetActiveState removes the latest entry from the state stack and sets it as the current vm output
@@ -81,6 +98,7 @@ func (context *outputContext) PopSetActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 	context.outputState = prevState
+	context.codeUpdates = context.popCodeUpdates()
 }
 
 // PopMergeActiveState merges the current state into the head of the stateStack,
@@ -97,6 +115,8 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	context.popCodeUpdates()
+
 	gasRefund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
 	mergeVMOutputs(prevState, context.outputState)
 	prevState.GasRefund = gasRefund
@@ -113,11 +133,13 @@ func (context *outputContext) PopDiscard() {
 	}
 
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.popCodeUpdates()
 }
 
 // ClearStateStack reinitializes the state stack.
 func (context *outputContext) ClearStateStack() {
 	context.stateStack = make([]*vmcommon.VMOutput, 0)
+	context.codeUpdatesStack = nil
 }
 
 // CensorVMOutput will cause the next executed SC to appear isolated, as if
-- 
2.43.0


From 6eb16d9f3b4b19cb453a5ca49c95ce57c34a2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 72/80] fix: keep what an account received before a deployment
 to it failed

A failed createContract deleted the whole output account of the new address,
and with it the balance change and the transfers of value sent to that address
earlier in the transaction, while the sender stayed debited.
---
 arwen/host/execution.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 78e49b4..59ae579 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -482,15 +482,20 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 		return
 	}
 
-	codeDeployInput.ContractAddress = newContractAddress
-	output.DeployCode(codeDeployInput)
-
+	// If the deployment fails, whatever has been sent to the address before it
+	// must remain.
+	output.PushState()
 	defer func() {
 		if err != nil {
-			output.DeleteOutputAccount(newContractAddress)
+			output.PopSetActiveState()
+		} else {
+			output.PopDiscard()
 		}
 	}()
 
+	codeDeployInput.ContractAddress = newContractAddress
+	output.DeployCode(codeDeployInput)
+
 	runtime.MustVerifyNextContractCode()
 
 	initCallInput := &vmcommon.ContractCallInput{
-- 
2.43.0


From 8b5a92750d4d730a7b6b08a4d4db68fb642824c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 73/80] fix: give a contract deployed during another deployment
 its own address

createContract increased the nonce of the creator only after the initialisation
of the new contract. A deployment requested by the creator while that ran (the
new contract called it back) got the same address and replaced the code being
deployed.
---
 arwen/host/execution.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 59ae579..5070d76 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -493,6 +493,10 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 		}
 	}()
 
+	// The nonce must change before the initialisation runs: it may make the
+	// creator deploy another contract, which needs its own address.
+	blockchain.IncreaseNonce(input.CallerAddr)
+
 	codeDeployInput.ContractAddress = newContractAddress
 	output.DeployCode(codeDeployInput)
 
@@ -505,12 +509,6 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 		VMInput:           input.VMInput,
 	}
 	_, _, err = host.ExecuteOnDestContext(initCallInput)
-	if err != nil {
-		return
-	}
-
-	blockchain.IncreaseNonce(input.CallerAddr)
-
 	return
 }
 
-- 
2.43.0


From 8a490684e534865a18143c754f038ebe491e83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 74/80] fix: end the execution when an upgrade cannot be
 requested

upgradeContract ignored the error of the asynchronous call it makes: without
enough gas for it the contract went on as if the upgrade had been requested.
---
 arwen/elrondapi/elrondei.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 89c3a74..d1a454b 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1547,6 +1547,13 @@ func upgradeContract(
 		value,
 	)
 	logEEI.Trace("upgradeContract", "error", err)
+	if errors.Is(err, arwen.ErrNotEnoughGas) {
+		runtime.SetRuntimeBreakpointValue(arwen.BreakpointOutOfGas)
+		return
+	}
+	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
+		return
+	}
 }
 
 //export v1_3_asyncCall
-- 
2.43.0


From 4b0b22415f5899f6be537489e7b439fb02faaa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 75/80] fix: respect the metadata of an upgrade made earlier in
 the transaction

The permission for an upgrade was decided with the metadata on the chain, so a
contract which had just been upgraded to be no longer upgradeable could be
upgraded again within the same transaction.
---
 arwen/host/execution.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 5070d76..f7ae0ba 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -521,7 +521,14 @@ func (host *vmHost) checkUpgradePermission(vmInput *vmcommon.ContractCallInput)
 		return arwen.ErrNilContract
 	}
 
-	codeMetadata := vmcommon.CodeMetadataFromBytes(contract.GetCodeMetadata())
+	codeMetadataBytes := contract.GetCodeMetadata()
+	account, ok := host.Output().GetOutputAccounts()[string(vmInput.RecipientAddr)]
+	if ok && len(account.CodeDeployerAddress) > 0 {
+		// already upgraded earlier in this transaction
+		codeMetadataBytes = account.CodeMetadata
+	}
+
+	codeMetadata := vmcommon.CodeMetadataFromBytes(codeMetadataBytes)
 	isUpgradeable := codeMetadata.Upgradeable
 	callerAddress := vmInput.CallerAddr
 	ownerAddress := contract.GetOwnerAddress()
-- 
2.43.0


From e0c470c89ef7639aba6967e7fbd518fd1cf69830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 76/80] fix: show a callback only the value sent back by the
 call it follows

The value of a callback was taken from the last transfer to the contract in the
whole transaction. When the called contract sent nothing, a transfer received
earlier was shown to the callback as if it had been sent back.
---
 arwen/host/asyncCall.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..a54abf2 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -61,9 +61,10 @@ func (host *vmHost) handleAsyncCallBreakpoint() error {
 	}
 
 	// Start calling the destination SC, synchronously.
+	numTransfersBefore := host.countTransfersToCurrentSC()
 	destinationVMOutput, destinationErr := host.executeSyncDestinationCall(asyncCallInfo)
 
-	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr)
+	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr, numTransfersBefore)
 
 	err = host.processCallbackVMOutput(callbackVMOutput, callBackErr)
 	if err != nil {
@@ -163,6 +164,7 @@ func (host *vmHost) executeSyncCallbackCall(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
 	destinationErr error,
+	numTransfersBefore int,
 ) (*vmcommon.VMOutput, error) {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCallInfo,
@@ -170,6 +172,7 @@ func (host *vmHost) executeSyncCallbackCall(
 		asyncCallInfo.GetDestination(),
 		arwen.CallbackFunctionName,
 		destinationErr,
+		numTransfersBefore,
 	)
 	if err != nil {
 		log.Trace("async call: sync callback failed", "error", err)
@@ -318,7 +321,22 @@ func (host *vmHost) createDestinationContractCallInput(asyncCallInfo arwen.Async
 	return contractCallInput, nil
 }
 
-func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput) *big.Int {
+// countTransfersToCurrentSC returns how many transfers have been made to the current contract so far
+func (host *vmHost) countTransfersToCurrentSC() int {
+	account, ok := host.Output().GetOutputAccounts()[string(host.Runtime().GetSCAddress())]
+	if !ok {
+		return 0
+	}
+
+	return len(account.OutputTransfers)
+}
+
+// computeCallValueFromLastOutputTransfer returns the value which the destination has sent back to the
+// current contract; the first numTransfersBefore transfers were made before the destination was called
+func (host *vmHost) computeCallValueFromLastOutputTransfer(
+	destinationVMOutput *vmcommon.VMOutput,
+	numTransfersBefore int,
+) *big.Int {
 	if !host.IsArwenV3Enabled() {
 		return big.NewInt(0)
 	}
@@ -333,7 +351,7 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 		return returnTransfer
 	}
 
-	if len(outAcc.OutputTransfers) == 0 {
+	if len(outAcc.OutputTransfers) <= numTransfersBefore {
 		return returnTransfer
 	}
 
@@ -351,6 +369,7 @@ func (host *vmHost) createCallbackContractCallInput(
 	callbackInitiator []byte,
 	callbackFunction string,
 	destinationErr error,
+	numTransfersBefore int,
 ) (*vmcommon.ContractCallInput, error) {
 	metering := host.Metering()
 	gasSchedule := metering.GasSchedule()
@@ -392,7 +411,7 @@ func (host *vmHost) createCallbackContractCallInput(
 		VMInput: vmcommon.VMInput{
 			CallerAddr:           callbackInitiator,
 			Arguments:            arguments,
-			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput),
+			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput, numTransfersBefore),
 			CallType:             vmcommon.AsynchronousCallBack,
 			GasPrice:             runtime.GetVMInput().GasPrice,
 			GasProvided:          gasLimit,
@@ -550,6 +569,7 @@ func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput
 		asyncCall.Destination,
 		callbackFunction,
 		executionError,
+		0,
 	)
 	if err != nil {
 		return err
@@ -739,6 +759,7 @@ func (host *vmHost) processCallbackStack() error {
 		asyncInfo.CallerAddr,
 		arwen.CallbackFunctionName,
 		nil,
+		0,
 	)
 	if err != nil {
 		return err
-- 
2.43.0


From cf3876620a01b300dfccdd82a15ba6b5720fd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 77/80] fix: count the gas of transfers to the running contract
 once

The gas attached to transfers which go to the running contract was subtracted
twice from what it used. A contract which sends an asynchronous call to itself
in its initialisation, or whose address received one before it was deployed,
failed with a gas mismatch.
---
 arwen/contexts/metering.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arwen/contexts/metering.go b/arwen/contexts/metering.go
index aad4072..45695df 100644
--- a/arwen/contexts/metering.go
+++ b/arwen/contexts/metering.go
@@ -175,14 +175,13 @@ func (context *meteringContext) updateSCGasUsed() {
 	output := context.host.Output()
 
 	currentAccountAddress := runtime.GetSCAddress()
-	currentContractAccount, _ := output.GetOutputAccount(currentAccountAddress)
-	outputAccounts := context.host.Output().GetOutputAccounts()
+	output.GetOutputAccount(currentAccountAddress)
+	outputAccounts := output.GetOutputAccounts()
 
-	gasTransferredByCurrentAccount := context.getGasTransferredByAccount(currentContractAccount)
+	// includes the gas of all the transfers, also of those to the current account
 	gasUsedByOthers := context.getGasUsedByAllOtherAccounts(outputAccounts)
 
 	gasUsed := context.GasSpentByContract()
-	gasUsed = math.SubUint64(gasUsed, gasTransferredByCurrentAccount)
 	gasUsed = math.SubUint64(gasUsed, gasUsedByOthers)
 
 	context.gasUsedByAccounts[string(currentAccountAddress)] = gasUsed
-- 
2.43.0


From 0d383e52ee0cc1e312345fac8a71e9fd94a92aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 78/80] fix: give a call of a builtin function its own output

If the execution after it fails, nothing of it remains in the output of the
caller.
---
 arwen/host/execution.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index f7ae0ba..aaf473b 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -227,12 +227,21 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 	blockchain := host.Blockchain()
 	blockchain.PushState()
 
-	if host.IsBuiltinFunctionName(input.Function) {
+	// A builtin function, together with the execution which follows it, has
+	// its own output, like any other nested call: if it fails, nothing of it
+	// may remain in the output of the caller.
+	output := host.Output()
+	isBuiltinCall := host.IsBuiltinFunctionName(input.Function)
+	if isBuiltinCall {
+		output.PushState()
+		output.CensorVMOutput()
+
 		scExecutionInput, vmOutput, err = host.handleBuiltinFunctionCall(input)
 		if err != nil {
 			blockchain.PopSetActiveState()
 			host.Runtime().AddError(err, input.Function)
-			vmOutput = host.Output().CreateVMOutputInCaseOfError(err)
+			vmOutput = output.CreateVMOutputInCaseOfError(err)
+			output.PopSetActiveState()
 			return
 		}
 	}
@@ -243,8 +252,14 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 
 	if err != nil {
 		blockchain.PopSetActiveState()
+		if isBuiltinCall {
+			output.PopSetActiveState()
+		}
 	} else {
 		blockchain.PopDiscard()
+		if isBuiltinCall {
+			output.PopMergeActiveState()
+		}
 	}
 
 	return
-- 
2.43.0


From 8c995aed899d51a7c3ab02d733dfcc7b81f7438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 79/80] fix: no second transfer for NFTs sent to another shard
 by a builtin call

---
 arwen/host/execution.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index aaf473b..a462998 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -791,9 +791,6 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 	if output.ReturnCode != vmcommon.Ok {
 		return
 	}
-	if !host.AreInSameShard(input.RecipientAddr, input.CallerAddr) {
-		return
-	}
 	isESDTTransfer := input.Function == vmcommon.BuiltInFunctionESDTTransfer || input.Function == vmcommon.BuiltInFunctionESDTNFTTransfer
 	if !isESDTTransfer {
 		return
@@ -806,6 +803,9 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 		}
 		recipientAddr = input.Arguments[3]
 	}
+	if !host.AreInSameShard(recipientAddr, input.CallerAddr) {
+		return
+	}
 	addOutputTransferToVMOutput(input.Function, input.Arguments, input.CallerAddr, recipientAddr, input.CallType, output)
 }
 
-- 
2.43.0


From be7094066ea63dac5340737a9e9012daf8e118f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 80/80] fix: let the other shard answer asynchronous transfers
 of NFTs to it

---
 arwen/host/asyncCall.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index a54abf2..21a3c35 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -113,7 +113,14 @@ func (host *vmHost) determineAsyncCallExecutionMode(asyncCallInfo *arwen.AsyncCa
 		return arwen.AsyncUnknown, err
 	}
 
-	sameShard := host.AreInSameShard(runtime.GetSCAddress(), asyncCallInfo.Destination)
+	// The sender of NFTs calls itself; the receiver is among the arguments.
+	destination := asyncCallInfo.Destination
+	isNFTTransfer := functionName == vmcommon.BuiltInFunctionESDTNFTTransfer && len(args) >= 4
+	if isNFTTransfer && bytes.Equal(destination, runtime.GetSCAddress()) {
+		destination = args[3]
+	}
+
+	sameShard := host.AreInSameShard(runtime.GetSCAddress(), destination)
 	if host.IsBuiltinFunctionName(functionName) {
 		if sameShard {
 			isESDTTransfer, _, _ := isESDTTransferOnReturnDataFromFunctionAndArgs(functionName, args)
-- 
2.43.0

