From d772498352bde9df64e6eb0936f248a718cee063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 01/58] fix: flow outputs: set attributes win over declared
 defaults and are not frozen early

GetReturnData cached the outputs the first time anything asked for them (a
state recorder, an event listener), so a flow that had not run yet returned
nothing, and let a declared default override the value the flow had set.
A subflow's mapped outputs and its returned error now reach the host task.
---
 instance/ind_instance.go |  7 ++++---
 instance/instance.go     | 38 +++++++++++++++++++++-----------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..13fc612 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -524,9 +524,10 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			host, ok := containerInst.host.(*TaskInst)
 
 			if ok {
-				host.SetOutputs(containerInst.returnData)
-				// Reset error if any
-				host.returnError = nil
+				// Hand over the subflow's outputs and error (if any)
+				returnData, returnErr := containerInst.GetReturnData()
+				host.SetOutputs(returnData)
+				host.returnError = returnErr
 				//Sub flow done
 				containerInst.master.GetChanges().SubflowDone(containerInst)
 				inst.scheduleEval(host)
diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..1a8b203 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -167,27 +167,31 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
-
-		//construct returnData from instance attributes
-		md := inst.flowDef.Metadata()
-
-		if md != nil && md.Output != nil {
-
-			inst.returnData = make(map[string]interface{})
-			for name := range md.Output {
-				piAttr, exists := inst.attrs[name]
-				if exists {
-					inst.returnData[name] = piAttr
-				}
-				if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
-				}
+	if inst.returnData != nil {
+		return inst.returnData, inst.returnError
+	}
+
+	//construct return data from the current instance attributes, this isn't cached
+	//because the attributes can still change until the flow has completed
+	var returnData map[string]interface{}
+
+	md := inst.flowDef.Metadata()
+
+	if md != nil && md.Output != nil {
+
+		returnData = make(map[string]interface{})
+		for name, output := range md.Output {
+			piAttr, exists := inst.attrs[name]
+			if exists {
+				returnData[name] = piAttr
+			} else if output != nil && output.Value() != nil {
+				//not set by the flow, so use the declared default
+				returnData[name] = output.Value()
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From ba30eb94b7d652f560bc53201f4efe74ec2f9a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 02/58] fix: a task reached by several links of the same task
 is entered only once

---
 instance/ind_instance.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 13fc612..9d66773 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -726,8 +726,12 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		defer inst.actSchedLock.Unlock()
 	}
 
-	for _, taskEntry := range taskEntries {
+	for i, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
+		if hasTaskEntry(taskEntries[:i], taskEntry.Task) {
+			//several links lead to this task, it must be entered only once
+			continue
+		}
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
 		if inst.concurrentExec && taskInst.scheduled {
@@ -751,6 +755,15 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 	return nil
 }
 
+func hasTaskEntry(taskEntries []*model.TaskEntry, task *definition.Task) bool {
+	for _, taskEntry := range taskEntries {
+		if taskEntry.Task == task {
+			return true
+		}
+	}
+	return false
+}
+
 func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err error) {
 
 	if !inst.HasInterceptor() {
-- 
2.43.0


From 634af62c6648ecb35715bd05ba5a8a01a62585b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 03/58] fix: the work of an abandoned task is dropped

Starting an error handler cleared the tasks of the main flow instead of those of
the flow that failed, and work items queued for tasks of a flow that had failed,
had ended or whose host task had been abandoned were still executed.
---
 instance/ind_instance.go | 12 ++++++++----
 instance/taskinst.go     | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9d66773..cc1188d 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -421,6 +421,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	if !taskInst.isLive() {
+		// the task was abandoned after this work item was queued
+		return
+	}
+
 	var err error
 	var evalResult model.EvalResult
 
@@ -679,10 +684,9 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	//not currently handling error, so check if it has an error handler
 	if containerInst.flowDef.GetErrorHandler() != nil {
 
-		// todo: should we clear out the existing workitem queue for items from containerInst?
-		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
-		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", containerInst.flowDef.Name())
+		//clear existing instances, their remaining work items are dropped
+		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..bd9eac5 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -82,6 +82,21 @@ type TaskInst struct {
 	asyncExec bool
 }
 
+// isLive determines if the task still has to be executed: it was not abandoned because its flow
+// (or one of the flows it is embedded in) has ended or is executing its error handler
+func (ti *TaskInst) isLive() bool {
+
+	for ti != nil {
+		flowInst := ti.flowInst
+		if flowInst.status != model.FlowStatusActive || flowInst.taskInsts[ti.taskID] != ti {
+			return false
+		}
+		ti, _ = flowInst.host.(*TaskInst)
+	}
+
+	return true
+}
+
 /////////////////////////////////////////
 // activity.Context Implementation
 
-- 
2.43.0


From 81872189a3b303008d8b7a452aba67db90f3c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 04/58] fix: a failing error handler fails the flow with its
 error

A failure in the error handler left the flow's error unset (the caller got no
data and no error), a panic in it was dropped, and in both cases the caller of a
subflow was not resumed.
---
 instance/ind_instance.go | 93 ++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 60 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index cc1188d..0cabaa3 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -413,11 +413,9 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
 			if !taskInst.flowInst.isHandlingError {
-
 				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
 			}
-			// else what should we do?
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -634,35 +632,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 
 		containerInst.releaseTask(taskInst.Task())
 	} else {
-		if containerInst.isHandlingError {
-			//fail
-			containerInst.SetStatus(model.FlowStatusFailed)
-
-			if containerInst != inst.Instance {
-				// Complete SubflowCreated trace
-				if containerInst.tracingCtx != nil {
-					_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-				}
-
-				//Finished Subflow with error
-				if containerInst != nil && containerInst.master != nil {
-					containerInst.master.RecordState(time.Now().UTC())
-				}
-				// spawned from task instance
-				host, ok := containerInst.host.(*TaskInst)
-
-				if ok {
-					host.returnError = err
-					inst.scheduleEval(host)
-				}
-			} else {
-				taskInst.appendErrorData(err)
-			}
-
-		} else {
-			taskInst.appendErrorData(err)
-			inst.HandleGlobalError(containerInst, err)
-		}
+		taskInst.appendErrorData(err)
+		inst.HandleGlobalError(containerInst, err)
 		return
 	}
 
@@ -671,23 +642,21 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 // HandleGlobalError handles instance errors
 func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err error) {
 
-	if containerInst.isHandlingError {
-		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
+	if containerInst.status != model.FlowStatusActive {
+		//already completed or failed
 		return
 	}
 
-	containerInst.isHandlingError = true
+	//if not currently handling error, check if it has an error handler
+	if !containerInst.isHandlingError && containerInst.flowDef.GetErrorHandler() != nil {
 
-	flowBehavior := inst.flowModel.GetFlowBehavior()
-
-	//not currently handling error, so check if it has an error handler
-	if containerInst.flowDef.GetErrorHandler() != nil {
+		containerInst.isHandlingError = true
 
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", containerInst.flowDef.Name())
 		//clear existing instances, their remaining work items are dropped
 		containerInst.taskInsts = make(map[string]*TaskInst)
 
+		flowBehavior := inst.flowModel.GetFlowBehavior()
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
 		if err != nil {
@@ -695,30 +664,34 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
 		}
 
-	} else {
-		// Print error message if no error handler
-		inst.logger.Error(err)
-		containerInst.SetStatus(model.FlowStatusFailed)
+		return
+	}
 
-		if containerInst != inst.Instance {
+	// Print error message if there is no error handler (or if it failed as well)
+	inst.logger.Error(err)
 
-			// Complete SubflowCreated trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-			}
+	containerInst.isHandlingError = true
+	containerInst.returnError = err
+	containerInst.SetStatus(model.FlowStatusFailed)
 
-			if containerInst != nil && containerInst.master != nil {
-				containerInst.master.RecordState(time.Now().UTC())
-			}
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
+	if containerInst != inst.Instance {
 
-			if ok {
-				host.returnError = err
-				inst.scheduleEval(host)
-			}
-		} else {
-			inst.returnError = err
+		// Complete SubflowCreated trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
+		}
+
+		//Finished Subflow with error
+		if containerInst.master != nil {
+			containerInst.master.RecordState(time.Now().UTC())
+		}
+
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.returnError = err
+			inst.scheduleEval(host)
 		}
 	}
 }
-- 
2.43.0


From db56d8f43cbe59a96ecee249097d511e5d9fbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 05/58] fix: a panic while evaluating a task is a failure of
 the task

so that it follows the task's error link like any other failure.
---
 instance/ind_instance.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0cabaa3..26d02ed 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -424,17 +424,12 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		return
 	}
 
-	var err error
-	var evalResult model.EvalResult
-
-	if taskInst.status == model.TaskStatusWaiting {
-		evalResult, err = behavior.PostEval(taskInst)
-	} else if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
+	if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
 		return
-	} else {
-		evalResult, err = behavior.Eval(taskInst)
 	}
 
+	evalResult, err := inst.evalTask(behavior, taskInst)
+
 	if err != nil {
 		//taskInst.returnError = err
 		inst.handleTaskError(behavior, taskInst, err)
@@ -470,6 +465,22 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	}
 }
 
+// evalTask evaluates the task, a panic while doing so is a failure of the task
+func (inst *IndependentInstance) evalTask(behavior model.TaskBehavior, taskInst *TaskInst) (evalResult model.EvalResult, err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			msg := fmt.Sprintf("unhandled Error executing task '%s' : %v", taskInst.task.ID(), r)
+			evalResult, err = model.EvalFail, NewActivityEvalError(taskInst.task.Name(), "unhandled", msg)
+		}
+	}()
+
+	if taskInst.status == model.TaskStatusWaiting {
+		return behavior.PostEval(taskInst)
+	}
+	return behavior.Eval(taskInst)
+}
+
 // handleTaskDone handles the completion of a task in the Flow Instance
 func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior, taskInst *TaskInst) {
 
-- 
2.43.0


From c2efa66442d5e53ec4c8c9bb5292efadfd11f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 06/58] fix: a loop over an asynchronous activity (a subflow)
 continues

The loop behaviors marked the task as done before requesting its next iteration,
which was then dropped as already done, so the flow never ended. The statuses of
the evaluation results are set by the instance, only once.
---
 model/simple/dowhilebehavior.go  | 11 ++++++-----
 model/simple/iteratorbehavior.go |  6 ++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..b6a0836 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -38,12 +38,10 @@ func (dw *DoWhileTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Eva
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
 	if !done {
-		ctx.SetStatus(model.TaskStatusWaiting)
 		return model.EvalWait, nil
 	}
 	defer dw.updateDoWhileIndex(ctx)
@@ -60,12 +58,15 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 	defer dw.updateDoWhileIndex(ctx)
-	return dw.checkDoWhileCondition(ctx)
+	evalResult, err = dw.checkDoWhileCondition(ctx)
+	if evalResult == model.EvalRepeat {
+		//not waiting anymore, so it has to be evaluated again
+		ctx.SetStatus(model.TaskStatusReady)
+	}
+	return evalResult, err
 }
 
 func (dw *DoWhileTaskBehavior) checkDoWhileCondition(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..7315481 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -127,7 +127,6 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 		if err != nil {
 			ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 			ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-			ctx.SetStatus(model.TaskStatusFailed)
 			return model.EvalFail, err
 		}
 
@@ -138,7 +137,6 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 			time.Sleep(time.Duration(delay) * time.Millisecond)
 		}
 		if !done {
-			ctx.SetStatus(model.TaskStatusWaiting)
 			return model.EvalWait, nil
 		}
 		evalResult = model.EvalRepeat
@@ -158,15 +156,15 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		//not waiting anymore, so it has to be evaluated again
+		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
 	}
 
-- 
2.43.0


From 695ae356a096ef9add39651ee87cb15dba788182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 07/58] fix: only retriable errors of an asynchronous activity
 are retried, also in loops

A retry that waits for the activity again is no longer taken for its completion
in do-while and iterator tasks.
---
 model/simple/dowhilebehavior.go  |  6 ++++-
 model/simple/iteratorbehavior.go |  6 ++++-
 model/simple/taskbehavior.go     | 38 +++++++++++++++++++-------------
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index b6a0836..dd38f22 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -53,13 +53,17 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	ctx.FlowLogger().Debugf("PostEval doWhile Task '%s'", ctx.Task().ID())
 
 	initIndex(ctx)
-	_, err = ctx.PostEvalActivity()
+	done, err := postEvalActivity(ctx)
 
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
 		return model.EvalFail, err
 	}
+	if !done {
+		//retried, so wait for it again
+		return model.EvalWait, nil
+	}
 	defer dw.updateDoWhileIndex(ctx)
 	evalResult, err = dw.checkDoWhileCondition(ctx)
 	if evalResult == model.EvalRepeat {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 7315481..ff302c5 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -151,13 +151,17 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 // PostEval implements model.TaskBehavior.PostEval
 func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
 	ctx.FlowLogger().Debugf("PostEval Iterator Task '%s'", ctx.Task().ID())
-	_, err = ctx.PostEvalActivity()
+	done, err := postEvalActivity(ctx)
 
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
 		return model.EvalFail, err
 	}
+	if !done {
+		//retried, so wait for it again
+		return model.EvalWait, nil
+	}
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index fd34031..98dff09 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -151,17 +151,16 @@ func evalActivity(ctx model.TaskContext) (bool, error) {
 	return done, nil
 }
 
-// PostEval implements model.TaskBehavior.PostEval
-func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
-	ctx.FlowLogger().Debugf("PostEval Task '%s'", ctx.Task().ID())
-	_, err = ctx.PostEvalActivity()
+// postEvalActivity does the post evaluation of the activity and retries it, if so configured
+func postEvalActivity(ctx model.TaskContext) (bool, error) {
+	_, err := ctx.PostEvalActivity()
 
 	if err != nil {
-		//// check if error returned is retriable
-		if _, ok := err.(*activity.Error); ok && ctx.Task().RetryOnErrConfig() != nil {
+		// check if error returned is retriable
+		if errVal, ok := err.(*activity.Error); ok && errVal.Retriable() && ctx.Task().RetryOnErrConfig() != nil {
 			retryData, rerr := getRetryData(ctx)
 			if rerr != nil {
-				return model.EvalFail, rerr
+				return false, rerr
 			}
 
 			if t, ok := ctx.(*instance.TaskInst); ok {
@@ -177,21 +176,30 @@ func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalRe
 			}
 
 			if retryData != nil && retryData.Count > 0 {
-				done, err := retryEval(ctx, retryData)
-				if err != nil {
-					return model.EvalFail, err
-				} else if done {
-					return model.EvalDone, nil
-				} else {
-					return model.EvalWait, nil
-				}
+				return retryEval(ctx, retryData)
 			}
 		}
+		return false, err
+	}
+	return true, nil
+}
+
+// PostEval implements model.TaskBehavior.PostEval
+func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
+	ctx.FlowLogger().Debugf("PostEval Task '%s'", ctx.Task().ID())
+	done, err := postEvalActivity(ctx)
+
+	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
 		//ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
+
+	if !done {
+		//retried, so wait for it again
+		return model.EvalWait, nil
+	}
 	return model.EvalDone, nil
 }
 
-- 
2.43.0


From 0e497916c22a377c60417dea6735ce099f9453b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 08/58] fix: the step limit ends only instances that have not
 ended, and ends them properly

An instance that failed in the last allowed step was reported as having reached
the limit, concurrent execution allowed one step more than sequential execution,
and an instance ended by the limit stayed active and was never reported as done
to the state recorder. A failed instance delivers only one result if the flow's
exception is asserted.
---
 action.go                | 21 ++++++---------------
 instance/ind_instance.go | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/action.go b/action.go
index bb95e26..2d484da 100644
--- a/action.go
+++ b/action.go
@@ -375,13 +375,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent flow execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil && inst.Status() != model.FlowStatusCompleted {
-				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+			if err != nil {
+				inst.Abort(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -393,13 +388,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
-				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
+				inst.Abort(fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
 
@@ -425,8 +415,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 26d02ed..eebab1a 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -344,7 +344,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
 			wi := item.(*WorkItem)
-			if stepCount > util.GetMaxStepCount() {
+			if stepCount >= util.GetMaxStepCount() {
 				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
 			}
 			inst.ResetChanges()
@@ -707,6 +707,18 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	}
 }
 
+// Abort fails the instance with the specified error if it hasn't ended yet
+func (inst *IndependentInstance) Abort(err error) {
+
+	if inst.status >= model.FlowStatusCompleted {
+		return
+	}
+
+	inst.logger.Error(err)
+	inst.returnError = err
+	inst.SetStatus(model.FlowStatusFailed)
+}
+
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
 	if inst.actSchedLock != nil {
 		// Lock is set only when concurrent executaion is enabled
-- 
2.43.0


From ab52c597561c63ca5d1b676fc40f2ee07b5f5855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 09/58] fix: on-demand: invalid flow packages are refused, the
 instance id is returned

A package that isn't raw JSON panicked, a failing input mapping was ignored and
the id reported was the function returning it.
---
 ondemand/action.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..6ae9527 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -179,7 +179,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if exists {
 
-		raw := fpAttr.(json.RawMessage)
+		raw, ok := fpAttr.(json.RawMessage)
+		if !ok {
+			return fmt.Errorf("invalid flow package: unsupported type %T", fpAttr)
+		}
 		err := json.Unmarshal(raw, flowPackage)
 		if err != nil {
 			return err
@@ -188,6 +191,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		return errors.New("flow package not provided")
 	}
 
+	if flowPackage.Flow == nil {
+		return errors.New("flow definition not provided in flow package")
+	}
+
 	logger.Debugf("InputMappings: %+v", flowPackage.Inputs)
 	logger.Debugf("OutputMappings: %+v", flowPackage.Outputs)
 
@@ -228,7 +235,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
@@ -287,7 +294,5 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 
 	inScope := data.NewSimpleScope(inputs, nil)
 
-	out, _ := m.Apply(inScope)
-
-	return out, nil
+	return m.Apply(inScope)
 }
-- 
2.43.0


From 28333f52b46a1d5852e24ab2a50944878ea08482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 10/58] fix: on-demand: an instance ended by the step limit
 delivers one result

---
 ondemand/action.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 6ae9527..0d64c7a 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -244,7 +244,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
 			if err != nil {
-				handler.HandleResult(nil, err)
+				inst.Abort(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -257,8 +257,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
-				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
+				inst.Abort(fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
 
-- 
2.43.0


From bc1b9a4b0eb8d519a257f2e3c2bc91e0b3e3c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 11/58] fix: on-demand: start a trace when a tracer is attached

Starting the instance dereferenced its missing tracing context.
---
 ondemand/action.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ondemand/action.go b/ondemand/action.go
index 0d64c7a..e5fb9c3 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -17,6 +17,7 @@ import (
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/core/support/log"
 	"github.com/project-flogo/core/support/service"
+	"github.com/project-flogo/core/support/trace"
 	"github.com/project-flogo/flow/definition"
 	"github.com/project-flogo/flow/instance"
 	"github.com/project-flogo/flow/model"
@@ -220,6 +221,14 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	logger.Debugf("Executing Flow Instance: %s", inst.ID())
 
+	if trace.Enabled() {
+		tc, err := trace.GetTracer().StartTrace(inst.SpanConfig(), trace.ExtractTracingContext(ctx))
+		if err != nil {
+			return err
+		}
+		inst.SetTracingContext(tc)
+	}
+
 	inst.Start(flowInputs)
 
 	stepCount := 0
@@ -265,9 +274,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if inst.Status() == model.FlowStatusCompleted {
 			returnData, err := inst.GetReturnData()
 
+			if inst.TracingContext() != nil {
+				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), nil)
+			}
 			handler.HandleResult(returnData, err)
 
 		} else if inst.Status() == model.FlowStatusFailed {
+			if inst.TracingContext() != nil {
+				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), inst.GetError())
+			}
 			handler.HandleResult(nil, inst.GetError())
 		}
 
-- 
2.43.0


From f3f65b0857874845ca549524d5614ae417a30fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 12/58] fix: a failing subflow without a state recorder no
 longer panics

---
 instance/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..f5d1b95 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,11 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil || inst.instRecorder.externalRecorder == nil {
+		//nobody to report to
+		return nil
+	}
+
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
-- 
2.43.0


From 49889328e6272f16a2770336b1d824f34ed01032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 13/58] fix: a panic while evaluating a link's expression is an
 error, not false

---
 instance/taskinst.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index bd9eac5..1cf2896 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -286,9 +286,7 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
-				err = fmt.Errorf("%v", r)
-			}
+			result, err = false, fmt.Errorf("%v", r)
 		}
 	}()
 
-- 
2.43.0


From ee7716a0a93f0cf7aa68599c075aeacc50bbc404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 14/58] fix: a flow without tasks completes

An empty flow or subflow never ended and an empty error handler left the failed
flow hanging instead of failing it.
---
 instance/ind_instance.go | 99 +++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index eebab1a..858a393 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -248,6 +248,11 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	ok, taskEntries := flowBehavior.Start(toStart)
 
 	if ok {
+		if len(taskEntries) == 0 {
+			//there is nothing to execute
+			inst.completeInstance(toStart)
+			return ok
+		}
 		err := inst.enterTasks(toStart, taskEntries)
 		if err != nil {
 			//todo review how we should handle an error encountered here
@@ -522,56 +527,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 
 	if flowDone || containerInst.forceCompletion {
 		//flow completed or return was called explicitly, so lets complete the flow
-		flowBehavior := inst.flowModel.GetFlowBehavior()
-		flowBehavior.Done(containerInst)
-		flowDone = true
-		containerInst.SetStatus(model.FlowStatusCompleted)
-
-		if containerInst != inst.Instance {
-			//not top level flow so we have to schedule next step
-			// Complete subflow trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, nil)
-			}
-
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
-
-			if ok {
-				// Hand over the subflow's outputs and error (if any)
-				returnData, returnErr := containerInst.GetReturnData()
-				host.SetOutputs(returnData)
-				host.returnError = returnErr
-				//Sub flow done
-				containerInst.master.GetChanges().SubflowDone(containerInst)
-				inst.scheduleEval(host)
-			}
-
-			//if containerInst.isHandlingError {
-			//	//was the error handler, so directly under instance
-			//	host,ok := containerInst.host.(*EmbeddedInstance)
-			//	if ok {
-			//		host.SetStatus(model.FlowStatusCompleted)
-			//		host.returnData = containerInst.returnData
-			//		host.returnError = containerInst.returnError
-			//	}
-			//	//todo if not a task inst, what should we do?
-			//} else {
-			//	// spawned from task instance
-			//
-			//	//todo if not a task inst, what should we do?
-			//}
-
-			// flow has completed so remove it
-			if inst.subFlowLock != nil {
-				inst.subFlowLock.Lock()
-				defer inst.subFlowLock.Unlock()
-			}
-			delete(inst.subflows, containerInst.subflowId)
-		} else {
-			containerInst.master.GetChanges().FlowDone(inst)
-		}
-
+		inst.completeInstance(containerInst)
 	} else {
 
 		if !propagateSkip {
@@ -588,6 +544,45 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	containerInst.releaseTask(task)
 }
 
+// completeInstance completes the flow, if it is a subflow the task that started it continues
+func (inst *IndependentInstance) completeInstance(containerInst *Instance) {
+
+	flowBehavior := inst.flowModel.GetFlowBehavior()
+	flowBehavior.Done(containerInst)
+	containerInst.SetStatus(model.FlowStatusCompleted)
+
+	if containerInst != inst.Instance {
+		//not top level flow so we have to schedule next step
+		// Complete subflow trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, nil)
+		}
+
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			// Hand over the subflow's outputs and error (if any)
+			returnData, returnErr := containerInst.GetReturnData()
+			host.SetOutputs(returnData)
+			host.returnError = returnErr
+			//Sub flow done
+			containerInst.master.GetChanges().SubflowDone(containerInst)
+			inst.scheduleEval(host)
+		}
+
+		// flow has completed so remove it
+		if inst.subFlowLock != nil {
+			inst.subFlowLock.Lock()
+			defer inst.subFlowLock.Unlock()
+		}
+		delete(inst.subflows, containerInst.subflowId)
+	} else {
+		containerInst.master.GetChanges().FlowDone(inst)
+	}
+
+}
+
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
 
 	if len(taskEntries) == 0 {
@@ -658,8 +653,10 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		return
 	}
 
+	errorHandler := containerInst.flowDef.GetErrorHandler()
+
 	//if not currently handling error, check if it has an error handler
-	if !containerInst.isHandlingError && containerInst.flowDef.GetErrorHandler() != nil {
+	if !containerInst.isHandlingError && errorHandler != nil && len(errorHandler.Tasks()) > 0 {
 
 		containerInst.isHandlingError = true
 
-- 
2.43.0


From bdeeae39ee61719117b0375e6914bc86438ece06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 15/58] fix: a task whose settings can't be resolved fails
 instead of being forgotten

---
 instance/ind_instance.go | 9 ++++++++-
 instance/util.go         | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 858a393..2de64d8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -723,8 +723,14 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		defer inst.actSchedLock.Unlock()
 	}
 
+	handlingError := activeInst.isHandlingError
+
 	for i, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
+		if activeInst.status != model.FlowStatusActive || activeInst.isHandlingError != handlingError {
+			//the flow failed (or ended) entering another task, so the others must not be entered
+			return nil
+		}
 		if hasTaskEntry(taskEntries[:i], taskEntry.Task) {
 			//several links lead to this task, it must be entered only once
 			continue
@@ -740,7 +746,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		if enterResult == model.EREval {
 			err := applySettingsMapper(taskInst)
 			if err != nil {
-				return err
+				inst.handleTaskError(behavior, taskInst, NewActivityEvalError(taskEntry.Task.Name(), "mapper", err.Error()))
+				continue
 			}
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
diff --git a/instance/util.go b/instance/util.go
index 1749626..c7bbd50 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -23,7 +23,13 @@ import (
 
 const EventIdAttr = "event.id"
 
-func applySettingsMapper(taskInst *TaskInst) error {
+func applySettingsMapper(taskInst *TaskInst) (err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("unhandled Error applying settings of task '%s' : %v", taskInst.task.ID(), r)
+		}
+	}()
 
 	// get the input mapper
 	settingsMapper := taskInst.task.SettingsMapper()
@@ -32,7 +38,6 @@ func applySettingsMapper(taskInst *TaskInst) error {
 
 		taskInst.logger.Debug("Applying SettingsMapper")
 
-		var err error
 		taskInst.settings, err = settingsMapper.Apply(taskInst.flowInst)
 
 		if err != nil {
-- 
2.43.0


From 8bc2274def208bef6401c9f62a21da779467deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 16/58] fix: a task skipped along with its predecessor is not
 entered again

When a skipped task led to another task that was skipped by the same
predecessor, the latter was entered a second time after it had been released and
the flow never completed.
---
 instance/ind_instance.go |  4 ++++
 instance/instance.go     | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 2de64d8..25896e7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -735,6 +735,10 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 			//several links lead to this task, it must be entered only once
 			continue
 		}
+		if activeInst.hasLeft(taskEntry.Task) {
+			//was entered and skipped while skipping one of the previous entries
+			continue
+		}
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
 		if inst.concurrentExec && taskInst.scheduled {
diff --git a/instance/instance.go b/instance/instance.go
index 1a8b203..72a0f23 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -136,6 +136,24 @@ func (inst *Instance) releaseTask(task *definition.Task) {
 	}
 }
 
+// hasLeft determines if the task, to which a link has been followed (or skipped), has been released since:
+// that removed its incoming links
+func (inst *Instance) hasLeft(task *definition.Task) bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	links := task.FromLinks()
+
+	for _, link := range links {
+		if _, exists := inst.linkInsts[link.ID()]; exists {
+			return false
+		}
+	}
+
+	return len(links) > 0
+}
+
 /////////////////////////////////////////
 // Instance - activity.Host Implementation
 
-- 
2.43.0


From f772dc4d2069ec9c859f92921dca4b3d0f3e0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 17/58] fix: the links of an activity that returned can't fail
 its flow

Return was called explicitly, so the flow ends with that outcome whatever the
expressions of the links that aren't followed anymore evaluate to.
---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 25896e7..d07c66c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -510,7 +510,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		inst.addActivityToCoverage(taskInst, nil)
 	}
 
-	if err != nil {
+	if err != nil && !containerInst.forceCompletion {
 		err = fmt.Errorf("error handling task done transition for task [%s] in flow [%s] : %s", taskInst.Name(), inst.flowDef.Name(), err.Error())
 		taskInst.appendErrorData(err)
 		inst.HandleGlobalError(containerInst, err)
-- 
2.43.0


From 645c68d85785104b5293821496f1089c86ae6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 18/58] fix: the delay of a loop over an asynchronous activity
 starts when it is done

---
 model/simple/iteratorbehavior.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index ff302c5..482aea6 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -130,15 +130,11 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 			return model.EvalFail, err
 		}
 
-		//Wait for delay
-		delay := ctx.Task().LoopConfig().Delay()
-		if delay > 0 {
-			ctx.FlowLogger().Infof("Iterate Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-			time.Sleep(time.Duration(delay) * time.Millisecond)
-		}
 		if !done {
+			//the delay starts when the activity is done
 			return model.EvalWait, nil
 		}
+		delayIteration(ctx)
 		evalResult = model.EvalRepeat
 
 	} else {
@@ -167,6 +163,7 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		delayIteration(ctx)
 		//not waiting anymore, so it has to be evaluated again
 		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
@@ -175,6 +172,15 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	return model.EvalDone, nil
 }
 
+// delayIteration waits for the delay of the loop, if there is one
+func delayIteration(ctx model.TaskContext) {
+	delay := ctx.Task().LoopConfig().Delay()
+	if delay > 0 {
+		ctx.FlowLogger().Infof("Iterate Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
+		time.Sleep(time.Duration(delay) * time.Millisecond)
+	}
+}
+
 //func getIterateValue(ctx model.TaskContext) (value interface{}, set bool) {
 //
 //	value, set = ctx.Task().GetSetting("iterate")
-- 
2.43.0


From 47cd3fd596fc51492b078452eee6aa731183f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 19/58] fix: concurrent execution: the transitions of an
 instance are executed one after the other

---
 instance/flowevents.go   |  42 ++++++++------
 instance/ind_instance.go | 121 ++++++++++++++++++++++++++++++++-------
 instance/instance.go     |  69 ++++++++++++++++++++--
 instance/instance_chg.go |   6 +-
 instance/taskinst.go     |  42 ++++++++++++--
 5 files changed, 226 insertions(+), 54 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 764886d..f817335 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -89,27 +89,37 @@ func postFlowEvent(inst *Instance) {
 		fe.input = make(map[string]interface{})
 		fe.output = make(map[string]interface{})
 
-		if fe.status != event.CREATED {
-			attrs := inst.attrs
-			outData, _ := inst.GetReturnData()
-			if attrs != nil && len(attrs) > 0 {
-				for name, attVal := range attrs {
-					if outData != nil && outData[name] != nil {
-						if fe.status == event.COMPLETED {
-							fe.output[name] = attVal
-						}
-						// Since same attribute map is used for input and output, filter output attributes
-						continue
+		fe.setData(inst)
+		coreevent.Post(event.FlowEventType, fe)
+	}
+}
+
+// setData sets the inputs, outputs and error of the flow
+func (fe *flowEvent) setData(inst *Instance) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+
+	if fe.status != event.CREATED {
+		attrs := inst.attrs
+		outData, _ := inst.getReturnData()
+		if attrs != nil && len(attrs) > 0 {
+			for name, attVal := range attrs {
+				if outData != nil && outData[name] != nil {
+					if fe.status == event.COMPLETED {
+						fe.output[name] = attVal
 					}
-					fe.input[name] = attVal
+					// Since same attribute map is used for input and output, filter output attributes
+					continue
 				}
+				fe.input[name] = attVal
 			}
 		}
+	}
 
-		if fe.status == event.FAILED {
-			fe.err = inst.returnError
-		}
-		coreevent.Post(event.FlowEventType, fe)
+	if fe.status == event.FAILED {
+		fe.err = inst.returnError
 	}
 }
 
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index d07c66c..b584af9 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -115,6 +115,9 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	embeddedInst.linkInsts = make(map[int]*LinkInst)
 	embeddedInst.flowURI = flowURI
 	embeddedInst.logger = inst.logger
+	if inst.concurrentExec {
+		embeddedInst.lock = &sync.RWMutex{}
+	}
 
 	if trace.Enabled() {
 		tc, _ := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext) //TODO handle error
@@ -152,7 +155,7 @@ func (inst *IndependentInstance) GetFlowState(inputs map[string]interface{}) *st
 		FlowInstanceId: inst.id,
 		FlowInputs:     inputs,
 		FlowOutputs:    retData,
-		FlowStats:      string(convertFlowStatus(inst.status)),
+		FlowStats:      string(convertFlowStatus(inst.Status())),
 		StartTime:      inst.startTime,
 		EndTime:        time.Now().UTC(),
 	}
@@ -248,6 +251,9 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	ok, taskEntries := flowBehavior.Start(toStart)
 
 	if ok {
+		inst.lockSched()
+		defer inst.unlockSched()
+
 		if len(taskEntries) == 0 {
 			//there is nothing to execute
 			inst.completeInstance(toStart)
@@ -344,7 +350,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 
 	var stepCount int
 
-	for inst.status == model.FlowStatusActive {
+	for inst.Status() == model.FlowStatusActive {
 		// get item to be worked on
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
@@ -402,9 +408,60 @@ func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 	inst.changeTracker.WorkItemAdded(workItem)
 }
 
+// lockSched starts a transition: from the evaluation of a task to the tasks to be evaluated next. When tasks
+// are executed concurrently, their transitions must be executed one after the other.
+func (inst *IndependentInstance) lockSched() {
+	if inst.actSchedLock != nil {
+		// Lock is set only when concurrent execution is enabled
+		inst.actSchedLock.Lock()
+	}
+}
+
+func (inst *IndependentInstance) unlockSched() {
+	if inst.actSchedLock != nil {
+		inst.actSchedLock.Unlock()
+	}
+}
+
 // execTask executes the specified Work Item of the Flow Instance
 func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst *TaskInst) {
 
+	if !inst.startExec(taskInst) {
+		return
+	}
+
+	evalResult, err := inst.evalTask(behavior, taskInst)
+
+	inst.taskEvaluated(behavior, taskInst, evalResult, err)
+}
+
+// startExec marks the task as executing, returns false if it mustn't be executed
+func (inst *IndependentInstance) startExec(taskInst *TaskInst) bool {
+
+	inst.lockSched()
+	defer inst.unlockSched()
+
+	if !taskInst.isLive() {
+		// the task was abandoned after this work item was queued
+		return false
+	}
+
+	if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
+		return false
+	}
+
+	taskInst.executing = true
+	taskInst.resumed = false
+
+	return true
+}
+
+// taskEvaluated does the transition that follows the evaluation of a task
+func (inst *IndependentInstance) taskEvaluated(behavior model.TaskBehavior, taskInst *TaskInst, evalResult model.EvalResult, err error) {
+
+	inst.lockSched()
+	defer inst.unlockSched()
+
 	defer func() {
 		if r := recover(); r != nil {
 
@@ -424,17 +481,16 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
-	if !taskInst.isLive() {
-		// the task was abandoned after this work item was queued
-		return
-	}
+	taskInst.executing = false
 
-	if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
+	if !taskInst.isLive() {
+		// the task was abandoned while it was executing
+		if taskInst.traceContext != nil {
+			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
+		}
 		return
 	}
 
-	evalResult, err := inst.evalTask(behavior, taskInst)
-
 	if err != nil {
 		//taskInst.returnError = err
 		inst.handleTaskError(behavior, taskInst, err)
@@ -450,6 +506,10 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		inst.handleTaskDone(behavior, taskInst)
 	case model.EvalWait:
 		taskInst.SetStatus(model.TaskStatusWaiting)
+		if taskInst.resumed {
+			// what it waits for is done already
+			inst.scheduleEval(taskInst)
+		}
 	case model.EvalFail:
 		taskInst.SetStatus(model.TaskStatusFailed)
 		if taskInst.traceContext != nil {
@@ -470,6 +530,17 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	}
 }
 
+// resumeTask continues the execution of a task that waits for its subflow
+func (inst *IndependentInstance) resumeTask(taskInst *TaskInst) {
+
+	if taskInst.executing {
+		// it is about to wait
+		taskInst.resumed = true
+		return
+	}
+	inst.scheduleEval(taskInst)
+}
+
 // evalTask evaluates the task, a panic while doing so is a failure of the task
 func (inst *IndependentInstance) evalTask(behavior model.TaskBehavior, taskInst *TaskInst) (evalResult model.EvalResult, err error) {
 
@@ -510,7 +581,9 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		inst.addActivityToCoverage(taskInst, nil)
 	}
 
-	if err != nil && !containerInst.forceCompletion {
+	forceCompletion := containerInst.hasReturned()
+
+	if err != nil && !forceCompletion {
 		err = fmt.Errorf("error handling task done transition for task [%s] in flow [%s] : %s", taskInst.Name(), inst.flowDef.Name(), err.Error())
 		taskInst.appendErrorData(err)
 		inst.HandleGlobalError(containerInst, err)
@@ -525,7 +598,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		flowDone = flowBehavior.TaskDone(containerInst)
 	}
 
-	if flowDone || containerInst.forceCompletion {
+	if flowDone || forceCompletion {
 		//flow completed or return was called explicitly, so lets complete the flow
 		inst.completeInstance(containerInst)
 	} else {
@@ -568,7 +641,7 @@ func (inst *IndependentInstance) completeInstance(containerInst *Instance) {
 			host.returnError = returnErr
 			//Sub flow done
 			containerInst.master.GetChanges().SubflowDone(containerInst)
-			inst.scheduleEval(host)
+			inst.resumeTask(host)
 		}
 
 		// flow has completed so remove it
@@ -662,7 +735,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", containerInst.flowDef.Name())
 		//clear existing instances, their remaining work items are dropped
-		containerInst.taskInsts = make(map[string]*TaskInst)
+		containerInst.clearTasks()
 
 		flowBehavior := inst.flowModel.GetFlowBehavior()
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
@@ -679,7 +752,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	inst.logger.Error(err)
 
 	containerInst.isHandlingError = true
-	containerInst.returnError = err
+	containerInst.setError(err)
 	containerInst.SetStatus(model.FlowStatusFailed)
 
 	if containerInst != inst.Instance {
@@ -699,7 +772,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 		if ok {
 			host.returnError = err
-			inst.scheduleEval(host)
+			inst.resumeTask(host)
 		}
 	}
 }
@@ -707,22 +780,19 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 // Abort fails the instance with the specified error if it hasn't ended yet
 func (inst *IndependentInstance) Abort(err error) {
 
+	inst.lockSched()
+	defer inst.unlockSched()
+
 	if inst.status >= model.FlowStatusCompleted {
 		return
 	}
 
 	inst.logger.Error(err)
-	inst.returnError = err
+	inst.setError(err)
 	inst.SetStatus(model.FlowStatusFailed)
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
-	if inst.actSchedLock != nil {
-		// Lock is set only when concurrent executaion is enabled
-		inst.actSchedLock.Lock()
-		defer inst.actSchedLock.Unlock()
-	}
-
 	handlingError := activeInst.isHandlingError
 
 	for i, taskEntry := range taskEntries {
@@ -817,6 +887,9 @@ func (inst *IndependentInstance) addSubFlowToCoverage(subFlowName, subFlowActivi
 		return
 	}
 
+	inst.lockSched()
+	defer inst.unlockSched()
+
 	coverage := flowsupport.SubFlowCoverage{
 		HostFlow:        hostFlowName,
 		SubFlowActivity: subFlowActivity,
@@ -1011,6 +1084,10 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 }
 
 func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 
 	base.FlowURI = inst.flowURI
 	base.Status = int(inst.status)
diff --git a/instance/instance.go b/instance/instance.go
index 72a0f23..3a674c2 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -164,26 +164,81 @@ func (inst *Instance) IOMetadata() *metadata.IOMetadata {
 
 func (inst *Instance) Reply(replyData map[string]interface{}, err error) {
 	if inst.resultHandler != nil {
-		inst.returnData = replyData
+		inst.setReturnData(replyData)
 		inst.resultHandler.HandleResult(replyData, err)
 	}
 }
 
 func (inst *Instance) Return(returnData map[string]interface{}, err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+
+		if inst.status >= model.FlowStatusCompleted {
+			//called by a task that was executing concurrently when the flow ended
+			return
+		}
+	}
 	inst.forceCompletion = true
 	inst.returnData = returnData
 	inst.returnError = err
 }
 
+func (inst *Instance) hasReturned() bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.forceCompletion
+}
+
+func (inst *Instance) setReturnData(returnData map[string]interface{}) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.returnData = returnData
+}
+
+func (inst *Instance) setError(err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.returnError = err
+}
+
+// clearTasks abandons all the tasks
+func (inst *Instance) clearTasks() {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.taskInsts = make(map[string]*TaskInst)
+}
+
 func (inst *Instance) Scope() data.Scope {
 	return inst
 }
 
 func (inst *Instance) GetError() error {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 	return inst.returnError
 }
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+
+	return inst.getReturnData()
+}
+
+func (inst *Instance) getReturnData() (map[string]interface{}, error) {
 
 	if inst.returnData != nil {
 		return inst.returnData, inst.returnError
@@ -217,15 +272,21 @@ func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
 // Status returns the current status of the Flow Instance
 func (inst *Instance) Status() model.FlowStatus {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 	return inst.status
 }
 
 func (inst *Instance) SetStatus(status model.FlowStatus) {
 	if inst.lock != nil {
 		inst.lock.Lock()
-		defer inst.lock.Unlock()
 	}
 	inst.status = status
+	if inst.lock != nil {
+		inst.lock.Unlock()
+	}
 	inst.master.changeTracker.SetStatus(inst.subflowId, status)
 	postFlowEvent(inst)
 }
@@ -296,10 +357,6 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
 
 	if len(attrs) > 0 {
 		for name, value := range attrs {
diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..7d3fe61 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -174,6 +174,7 @@ func (sct *SimpleChangeTracker) FlowCreated(flow *IndependentInstance) {
 }
 
 func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
+	returnData, _ := flow.GetReturnData()
 	if sct.lock != nil {
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
@@ -184,7 +185,6 @@ func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
 		if flowC != nil {
 			flowC.FlowURI = flow.flowURI
 			flowC.Status = int(flow.status)
-			returnData, _ := flow.GetReturnData()
 			flowC.ReturnData = util.DeepCopyMap(returnData)
 		} else {
 			fc := &change.Flow{
@@ -192,7 +192,6 @@ func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
 				FlowURI: flow.flowURI,
 				Status:  int(flow.status),
 			}
-			returnData, _ := flow.GetReturnData()
 			fc.ReturnData = util.DeepCopyMap(returnData)
 			sct.currentStep.FlowChanges[flow.subflowId] = fc
 		}
@@ -217,6 +216,7 @@ func (sct *SimpleChangeTracker) SubflowCreated(subflow *Instance) {
 }
 
 func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
+	returnData, _ := subflow.GetReturnData()
 	if sct.lock != nil {
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
@@ -228,7 +228,6 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 			if fc != nil {
 				fc.FlowURI = subflow.flowURI
 				fc.Status = int(subflow.status)
-				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
@@ -236,7 +235,6 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 					FlowURI: subflow.flowURI,
 					Status:  int(subflow.status),
 				}
-				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
 				sct.currentStep.FlowChanges[subflow.subflowId] = fc
 			}
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1cf2896..5b37031 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -80,10 +80,15 @@ type TaskInst struct {
 	scheduled bool
 	// When concurrent execution mode is enabled, this flag determines whether task should execute on a separate goroutine or not
 	asyncExec bool
+	// Set while the task is being evaluated
+	executing bool
+	// Set when the task has to continue as soon as it waits
+	resumed bool
 }
 
 // isLive determines if the task still has to be executed: it was not abandoned because its flow
-// (or one of the flows it is embedded in) has ended or is executing its error handler
+// (or one of the flows it is embedded in) has ended or is executing its error handler. Must be used in a
+// transition (see lockSched).
 func (ti *TaskInst) isLive() bool {
 
 	for ti != nil {
@@ -183,12 +188,23 @@ func (ti *TaskInst) Logger() log.Logger {
 
 // Status implements flow.TaskContext.GetState
 func (ti *TaskInst) Status() model.TaskStatus {
+	if lock := ti.flowInst.lock; lock != nil {
+		lock.RLock()
+		defer lock.RUnlock()
+	}
 	return ti.status
 }
 
 // SetStatus implements flow.TaskContext.SetStatus
 func (ti *TaskInst) SetStatus(status model.TaskStatus) {
+	lock := ti.flowInst.lock
+	if lock != nil {
+		lock.Lock()
+	}
 	ti.status = status
+	if lock != nil {
+		lock.Unlock()
+	}
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
 	postTaskEvent(ti)
 }
@@ -391,10 +407,7 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 				errObj := ti.getErrorObject(evalErr)
 
-				if !ti.flowInst.isHandlingError {
-					_ = ti.flowInst.SetValue("_E", errObj)
-				}
-				_ = ti.flowInst.SetValue("_E."+ti.Task().ID(), errObj)
+				ti.setEvalError(errObj)
 
 				applyAssertionInterceptor(ti, support.AssertionException)
 				return false, evalErr
@@ -565,6 +578,23 @@ func (ti *TaskInst) appendErrorData(err error) {
 	//ti.flowInst.attrs["_E."+ti.Task().ID()] = errObj
 }
 
+// setEvalError sets the error of the activity's evaluation
+func (ti *TaskInst) setEvalError(errObj map[string]interface{}) {
+	master := ti.flowInst.master
+	master.lockSched()
+	defer master.unlockSched()
+
+	if master.concurrentExec && !ti.isLive() {
+		//the task was abandoned while it was executing
+		return
+	}
+
+	if !ti.flowInst.isHandlingError {
+		_ = ti.flowInst.SetValue("_E", errObj)
+	}
+	_ = ti.flowInst.SetValue("_E."+ti.Task().ID(), errObj)
+}
+
 func (ti *TaskInst) setTaskError(err error) {
 	//For error branch handle.
 	errObj := ti.getErrorObject(err)
@@ -596,7 +626,7 @@ func (ti *TaskInst) handleAccumulation() error {
 	attrName := "_A." + ti.Task().ID()
 	var outputs []interface{}
 
-	if attr, ok := ti.flowInst.attrs[attrName]; ok {
+	if attr, ok := ti.flowInst.GetValue(attrName); ok {
 		var err error
 		outputs, err = coerce.ToArray(attr)
 		if err != nil {
-- 
2.43.0


From 9d95b66b6ce446949033d65550f6d14a5b50c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 20/58] fix: the results of a detached flow don't reach the
 flow that started it

---
 action.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/action.go b/action.go
index 2d484da..b8e7b50 100644
--- a/action.go
+++ b/action.go
@@ -344,7 +344,12 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	hasWork := true
 
-	inst.SetResultHandler(handler)
+	resultHandler := handler
+	if detachExecution {
+		//no reply expected, the caller doesn't get the results of the detached execution
+		resultHandler = discardingResultHandler{}
+	}
+	inst.SetResultHandler(resultHandler)
 	if stateRecorder != nil {
 		//We don't need record step 0 if restart from activity
 		if initStepId <= 0 {
@@ -356,13 +361,6 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	}
 
 	go func() {
-		if detachExecution {
-			// In detached mode, no reply expected. So, notifying handler.
-			handler.Done()
-		} else {
-			defer handler.Done()
-		}
-
 		if retID {
 
 			results := map[string]interface{}{
@@ -372,6 +370,13 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			handler.HandleResult(results, nil)
 		}
 
+		if detachExecution {
+			// In detached mode, no reply expected. So, notifying handler.
+			handler.Done()
+		} else {
+			defer handler.Done()
+		}
+
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent flow execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
@@ -404,7 +409,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			fa.applyAssertionInterceptor(inst, flowsupport.AssertionActivity)
 
-			handler.HandleResult(returnData, err)
+			resultHandler.HandleResult(returnData, err)
 		} else if inst.Status() == model.FlowStatusFailed {
 			hasFlowExceptionAssert := fa.applyAssertionInterceptor(inst, flowsupport.AssertionException)
 
@@ -414,9 +419,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// If we are in unit testing mode and flow has assertion exception then we dont make the flow fail
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
-				handler.HandleResult(nil, nil)
+				resultHandler.HandleResult(nil, nil)
 			} else {
-				handler.HandleResult(nil, inst.GetError())
+				resultHandler.HandleResult(nil, inst.GetError())
 			}
 		}
 
@@ -436,6 +441,16 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
+// discardingResultHandler discards the results
+type discardingResultHandler struct {
+}
+
+func (discardingResultHandler) HandleResult(map[string]interface{}, error) {
+}
+
+func (discardingResultHandler) Done() {
+}
+
 func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstance, assertType int) bool {
 
 	if !inst.HasInterceptor() {
-- 
2.43.0


From 09baec972af49d9c06b8ebc09257a8497a235b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 21/58] fix: the outputs of a subflow repeated by an
 accumulating do-while are applied, its condition can read them

---
 instance/taskinst.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 5b37031..9cb2f7b 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -538,17 +538,17 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if err := ti.handleAccumulation(); err != nil {
 				return false, err
 			}
-		} else if ti.task.ActivityConfig().OutputMapper() != nil {
-			appliedMapper, err := applyOutputMapper(ti)
 
-			if err != nil {
-				evalErr = NewActivityEvalError(ti.task.Name(), "mapper", err.Error())
-				return done, evalErr
+			if cfg.ApplyOutputOnAccumulate() {
+				err = ti.applyOutputMapper()
+				if err != nil {
+					return done, err
+				}
 			}
-
-			if !appliedMapper && !ti.task.IsScope() {
-
-				ti.logger.Debug("Mapper not applied")
+		} else {
+			err = ti.applyOutputMapper()
+			if err != nil {
+				return done, err
 			}
 		}
 		err = applyAssertionInterceptor(ti, support.AssertionActivity)
-- 
2.43.0


From c32c51957b209913f0a12417095d8c87368ee83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 22/58] fix: subflow panics if its span can't be started

StartTrace may fail, the subflow then has no tracing context.
---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b584af9..ccf831e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -184,7 +184,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	_ = toStart.SetValue(flowCtxPrefix+appVersion, flowsupport.GetAppVerison())
 
 	// If tracing is enabled, inject traceId and spanId in flow context
-	if trace.Enabled() {
+	if toStart.tracingCtx != nil {
 		_ = toStart.SetValue(flowCtxPrefix+traceId, toStart.tracingCtx.TraceID())
 		_ = toStart.SetValue(flowCtxPrefix+spanId, toStart.tracingCtx.SpanID())
 	} else {
@@ -195,7 +195,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	if inst.logger.DebugEnabled() {
 		inst.logger.Debugf("Flow Name: %s", toStart.Name())
 		inst.logger.Debugf("Flow Id: %s", toStart.ID())
-		if trace.Enabled() {
+		if toStart.tracingCtx != nil {
 			inst.logger.Debugf("Trace Id: %s", toStart.tracingCtx.TraceID())
 			inst.logger.Debugf("Span Id: %s", toStart.tracingCtx.SpanID())
 		}
-- 
2.43.0


From 485cc2e73ddb20a79cc79eeca1ca3b6399cae7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 23/58] fix: skipped event of a task is published twice

---
 model/simple/taskbehavior.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index 98dff09..2eb81f6 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -318,7 +318,10 @@ func (tb *TaskBehavior) Skip(ctx model.TaskContext) (notifyFlow bool, taskEntrie
 	linkInsts := ctx.GetToLinkInstances()
 	numLinks := len(linkInsts)
 
-	ctx.SetStatus(model.TaskStatusSkipped)
+	if ctx.Status() != model.TaskStatusSkipped {
+		//not skipped already when it was entered
+		ctx.SetStatus(model.TaskStatusSkipped)
+	}
 
 	logger := ctx.FlowLogger()
 
-- 
2.43.0


From cbe035d51f3e50be35cce38f044ddf10559b116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 24/58] fix: failed event of a task lacks its error

---
 instance/ind_instance.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ccf831e..4a122f4 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -690,6 +690,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 	if taskInst.traceContext != nil {
 		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
 	}
+	// the error is part of the failed event
+	taskInst.returnError = err
 	// Set task status to failed for subflow activity
 	taskInst.SetStatus(model.TaskStatusFailed)
 
-- 
2.43.0


From 27fc74c251a205c0de20cf181dffc92983051772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 25/58] fix: subflows of abandoned tasks never end

They are cancelled when their flow starts its error handler or ends, so that each flow and each span ends.
---
 instance/ind_instance.go | 100 +++++++++++++++++++++++++++++----------
 instance/taskinst.go     |   8 ++++
 2 files changed, 82 insertions(+), 26 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4a122f4..9f131c7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -245,15 +245,24 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		inst.changeTracker.AttrChange(toStart.subflowId, name, value)
 	}
 
+	inst.lockSched()
+	defer inst.unlockSched()
+
+	if host, ok := toStart.host.(*TaskInst); ok && inst.concurrentExec && !host.isLive() {
+		// the task that starts the subflow was abandoned while it was executing
+		inst.removeSubflow(toStart)
+		if toStart.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(toStart.tracingCtx, nil)
+		}
+		return false
+	}
+
 	toStart.SetStatus(model.FlowStatusActive)
 
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 	ok, taskEntries := flowBehavior.Start(toStart)
 
 	if ok {
-		inst.lockSched()
-		defer inst.unlockSched()
-
 		if len(taskEntries) == 0 {
 			//there is nothing to execute
 			inst.completeInstance(toStart)
@@ -467,9 +476,7 @@ func (inst *IndependentInstance) taskEvaluated(behavior model.TaskBehavior, task
 
 			err := fmt.Errorf("unhandled Error executing task '%s' : %v", taskInst.task.ID(), r)
 			inst.logger.Error(err)
-			if taskInst.traceContext != nil {
-				_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
-			}
+			taskInst.finishTrace(err)
 
 			// todo: useful for debugging
 			//logger.Debugf("StackTrace: %s", debug.Stack())
@@ -485,9 +492,7 @@ func (inst *IndependentInstance) taskEvaluated(behavior model.TaskBehavior, task
 
 	if !taskInst.isLive() {
 		// the task was abandoned while it was executing
-		if taskInst.traceContext != nil {
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
-		}
+		taskInst.finishTrace(err)
 		return
 	}
 
@@ -512,18 +517,14 @@ func (inst *IndependentInstance) taskEvaluated(behavior model.TaskBehavior, task
 		}
 	case model.EvalFail:
 		taskInst.SetStatus(model.TaskStatusFailed)
-		if taskInst.traceContext != nil {
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, taskInst.returnError)
-		}
+		taskInst.finishTrace(taskInst.returnError)
 	case model.EvalRepeat:
 		taskInst.UpdateTaskToTracker()
 		if taskInst.traceContext != nil {
 			// Finish previous span
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, nil)
+			taskInst.finishTrace(nil)
 			taskInst.counter++
 			taskInst.id = taskInst.taskID + "-" + strconv.Itoa(taskInst.counter)
-			// Reset span
-			taskInst.traceContext = nil
 		}
 		//task needs to iterate or retry
 		inst.scheduleEval(taskInst)
@@ -575,9 +576,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		}
 	} else {
 		notifyFlow, taskEntries, err = taskBehavior.Done(taskInst)
-		if taskInst.traceContext != nil {
-			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, nil)
-		}
+		taskInst.finishTrace(nil)
 		inst.addActivityToCoverage(taskInst, nil)
 	}
 
@@ -620,6 +619,8 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 // completeInstance completes the flow, if it is a subflow the task that started it continues
 func (inst *IndependentInstance) completeInstance(containerInst *Instance) {
 
+	inst.cancelTasks(containerInst)
+
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 	flowBehavior.Done(containerInst)
 	containerInst.SetStatus(model.FlowStatusCompleted)
@@ -645,17 +646,60 @@ func (inst *IndependentInstance) completeInstance(containerInst *Instance) {
 		}
 
 		// flow has completed so remove it
-		if inst.subFlowLock != nil {
-			inst.subFlowLock.Lock()
-			defer inst.subFlowLock.Unlock()
-		}
-		delete(inst.subflows, containerInst.subflowId)
+		inst.removeSubflow(containerInst)
 	} else {
 		containerInst.master.GetChanges().FlowDone(inst)
 	}
 
 }
 
+// removeSubflow removes a subflow that has ended
+func (inst *IndependentInstance) removeSubflow(subflow *Instance) {
+
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+	delete(inst.subflows, subflow.subflowId)
+}
+
+// cancelTasks cancels what the tasks of the flow are waiting for, the flow continues or ends without them
+func (inst *IndependentInstance) cancelTasks(flowInst *Instance) {
+
+	for _, subflow := range inst.startedSubflows(flowInst) {
+		inst.cancelTasks(subflow)
+		subflow.SetStatus(model.FlowStatusCancelled)
+		if subflow.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(subflow.tracingCtx, nil)
+		}
+		inst.GetChanges().SubflowDone(subflow)
+		inst.removeSubflow(subflow)
+	}
+
+	for _, taskInst := range flowInst.taskInsts {
+		if !taskInst.executing {
+			taskInst.finishTrace(nil)
+		}
+	}
+}
+
+// startedSubflows are the active subflows started by the tasks of the flow
+func (inst *IndependentInstance) startedSubflows(flowInst *Instance) []*Instance {
+
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+
+	var subflows []*Instance
+	for _, subflow := range inst.subflows {
+		if host, ok := subflow.host.(*TaskInst); ok && host.flowInst == flowInst && subflow.status == model.FlowStatusActive {
+			subflows = append(subflows, subflow)
+		}
+	}
+	return subflows
+}
+
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
 
 	if len(taskEntries) == 0 {
@@ -687,9 +731,7 @@ func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, a
 // handleTaskError handles the completion of a task in the Flow Instance
 func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior, taskInst *TaskInst, err error) {
 
-	if taskInst.traceContext != nil {
-		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
-	}
+	taskInst.finishTrace(err)
 	// the error is part of the failed event
 	taskInst.returnError = err
 	// Set task status to failed for subflow activity
@@ -737,6 +779,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", containerInst.flowDef.Name())
 		//clear existing instances, their remaining work items are dropped
+		inst.cancelTasks(containerInst)
 		containerInst.clearTasks()
 
 		flowBehavior := inst.flowModel.GetFlowBehavior()
@@ -753,6 +796,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	// Print error message if there is no error handler (or if it failed as well)
 	inst.logger.Error(err)
 
+	inst.cancelTasks(containerInst)
 	containerInst.isHandlingError = true
 	containerInst.setError(err)
 	containerInst.SetStatus(model.FlowStatusFailed)
@@ -776,6 +820,9 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 			host.returnError = err
 			inst.resumeTask(host)
 		}
+
+		// flow has failed so remove it
+		inst.removeSubflow(containerInst)
 	}
 }
 
@@ -790,6 +837,7 @@ func (inst *IndependentInstance) Abort(err error) {
 	}
 
 	inst.logger.Error(err)
+	inst.cancelTasks(inst.Instance)
 	inst.setError(err)
 	inst.SetStatus(model.FlowStatusFailed)
 }
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 9cb2f7b..c079b38 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -170,6 +170,14 @@ func (ti *TaskInst) SetOutputObject(output data.StructValue) error {
 }
 
 // GetInputObject implements activity.Context.GetInputObject
+// finishTrace finishes the span of the task's execution, if it isn't finished yet
+func (ti *TaskInst) finishTrace(err error) {
+	if ti.traceContext != nil {
+		_ = trace.GetTracer().FinishTrace(ti.traceContext, err)
+		ti.traceContext = nil
+	}
+}
+
 func (ti *TaskInst) GetTracingContext() trace.TracingContext {
 	return ti.traceContext
 }
-- 
2.43.0


From bcdd41caa25612b3bdb368ec575fc5060a8bc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 26/58] fix: task is entered and scheduled twice

---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9f131c7..0e9ed13 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -861,8 +861,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		}
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
-		if inst.concurrentExec && taskInst.scheduled {
-			//task is already scheduled by other goroutine. Lets skip this task
+		if taskInst.scheduled {
+			//task is already scheduled (by other goroutine or while skipping one of the previous entries). Lets skip this task
 			continue
 		}
 		taskInst.id = taskInst.taskID
-- 
2.43.0


From 50b12dbe4ccb1688ef3e48b8cec7b331229b0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 27/58] fix: starting a subflow races with the recording of the
 state

---
 instance/ind_instance.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0e9ed13..9a83a7f 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -221,6 +221,11 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 
 	md := toStart.flowDef.Metadata()
 
+	if toStart.lock != nil {
+		// the state might be recorded meanwhile
+		toStart.lock.Lock()
+	}
+
 	if md != nil && md.Input != nil {
 
 		if toStart.attrs == nil {
@@ -245,6 +250,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		inst.changeTracker.AttrChange(toStart.subflowId, name, value)
 	}
 
+	if toStart.lock != nil {
+		toStart.lock.Unlock()
+	}
+
 	inst.lockSched()
 	defer inst.unlockSched()
 
-- 
2.43.0


From 6093afdeb4773476a65b2ada344e91225c01649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 28/58] fix: an interceptor without coverage fails every flow

The coverage of an interceptor is optional, but the coverage collected for
each activity, link and subflow was added to it unconditionally: the first
completed activity of an instance with e.g. only a mock panicked.
---
 support/interceptor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..42a9c64 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -55,14 +55,23 @@ func (pi *Interceptor) GetTaskInterceptor(taskID string) *TaskInterceptor {
 }
 
 func (pi *Interceptor) AddToActivityCoverage(coverage ActivityCoverage) {
+	if pi.Coverage == nil {
+		return
+	}
 	pi.Coverage.ActivityCoverage = append(pi.Coverage.ActivityCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToSubFlowCoverage(coverage SubFlowCoverage) {
+	if pi.Coverage == nil {
+		return
+	}
 	pi.Coverage.SubFlowCoverage = append(pi.Coverage.SubFlowCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToLinkCoverage(coverage TransitionCoverage) {
+	if pi.Coverage == nil {
+		return
+	}
 	pi.Coverage.TransitionCoverage = append(pi.Coverage.TransitionCoverage, &coverage)
 }
 
-- 
2.43.0


From b9e25722590be2be1ae28a748917cec22e58d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 29/58] fix: coverage attributes activities of subflows to the
 wrong graph

Whether an activity belongs to the flow or to its error handler was
decided by the main flow's state instead of the activity's own flow, as
it is for links.
---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9a83a7f..6712d62 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -927,13 +927,13 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 			Outputs:      outputs,
 			Error:        errorObj,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	} else {
 		coverage = flowsupport.ActivityCoverage{
 			ActivityName: taskInst.taskID,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	}
 
-- 
2.43.0


From f8fa9b14f6636c8aab05027a190c1933297804a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 30/58] fix: interceptors report panicked and asynchronous
 failures as not executed or passed

The execution status of an activity was only set to failed if its Eval
returned an error: one that panicked kept 'not executed' and one that
failed asynchronously, e.g. an invoked flow, kept 'passed'.
---
 instance/taskinst.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index c079b38..ca5b0c7 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -351,6 +351,8 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 				evalErr = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
 				done = false
 			}
+			setActivityExecutionStatus(ti, support.Fail)
+			setActivityExecutionMessage(ti, evalErr.Error())
 		}
 		if evalErr != nil {
 			ti.logger.Errorf("Execution failed for Activity[%s] in Flow[%s] - %s", ti.task.ID(), ti.flowInst.flowDef.Name(), evalErr.Error())
@@ -510,6 +512,8 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 				evalErr = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
 				done = false
 			}
+			setActivityExecutionStatus(ti, support.Fail)
+			setActivityExecutionMessage(ti, evalErr.Error())
 		}
 		if evalErr != nil {
 			ti.logger.Errorf("Execution failed for Activity[%s] in Flow[%s] - %s", ti.task.Name(), ti.flowInst.flowDef.Name(), evalErr.Error())
@@ -527,11 +531,15 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if ok {
 				e.SetActivityName(ti.task.Name())
 			}
+			setActivityExecutionStatus(ti, support.Fail)
+			setActivityExecutionMessage(ti, evalErr.Error())
 
 			return false, evalErr
 		}
 	}
 	if ti.returnError != nil {
+		setActivityExecutionStatus(ti, support.Fail)
+		setActivityExecutionMessage(ti, ti.returnError.Error())
 		return false, ti.returnError
 	}
 
-- 
2.43.0


From f0a0f6b7d738329a2f9907a36ad202c78817ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 31/58] fix: task without activity panics when the flow starts

---
 definition/definition_ser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 010a65a..88435c1 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -189,6 +189,10 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		task.activityCfg = actCfg
 	}
 
+	if task.activityCfg == nil {
+		return nil, errors.New("activity not specified for task: " + task.id)
+	}
+
 	return task, nil
 }
 
-- 
2.43.0


From cda23af61868ebc2bf5158d3264c419ad9882a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 32/58] fix: on-demand flow without input mappings panics

---
 ondemand/action.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ondemand/action.go b/ondemand/action.go
index e5fb9c3..ae24f3e 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -306,6 +306,10 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 	if err != nil {
 		return nil, err
 	}
+	if m == nil {
+		//there are no mappings
+		return make(map[string]interface{}), nil
+	}
 
 	inScope := data.NewSimpleScope(inputs, nil)
 
-- 
2.43.0


From a003f2c2143401e8c3b782f5534cebf8eb03e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 33/58] fix: on-demand flow package with malformed metadata
 panics

---
 ondemand/action.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index ae24f3e..9c9bbec 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -176,7 +176,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	fpAttr, exists := inputs[ivFlowPackage]
 
-	flowPackage := &FlowPackage{}
+	var flowPackage *FlowPackage
 
 	if exists {
 
@@ -184,7 +184,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if !ok {
 			return fmt.Errorf("invalid flow package: unsupported type %T", fpAttr)
 		}
-		err := json.Unmarshal(raw, flowPackage)
+		var err error
+		flowPackage, err = parseFlowPackage(raw)
 		if err != nil {
 			return err
 		}
@@ -298,6 +299,16 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
+func parseFlowPackage(raw json.RawMessage) (flowPackage *FlowPackage, err error) {
+
+	//decoding metadata can panic, the package isn't trusted
+	defer support.HandlePanic("parseFlowPackage", &err)
+
+	flowPackage = &FlowPackage{}
+	err = json.Unmarshal(raw, flowPackage)
+	return flowPackage, err
+}
+
 func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (map[string]interface{}, error) {
 
 	mapperFactory := mapper.NewFactory(resolve.GetBasicResolver())
-- 
2.43.0


From ad2f365e9c842882a4d3be6e975cc753f68aa7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 34/58] fix: on-demand flow with malformed input mappings
 panics

---
 ondemand/action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 9c9bbec..f09f2bf 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -309,7 +309,10 @@ func parseFlowPackage(raw json.RawMessage) (flowPackage *FlowPackage, err error)
 	return flowPackage, err
 }
 
-func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (map[string]interface{}, error) {
+func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (values map[string]interface{}, err error) {
+
+	//a malformed mapping can panic, the package isn't trusted
+	defer support.HandlePanic("ApplyMappings", &err)
 
 	mapperFactory := mapper.NewFactory(resolve.GetBasicResolver())
 
-- 
2.43.0


From 8ad71c327f095ebcd2eca4ea1aa68a0004e5c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 35/58] fix: subflow starts without inputs if its definition
 couldn't be read at first

---
 activity/subflow/activity.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/activity/subflow/activity.go b/activity/subflow/activity.go
index 5c16b2c..f726fd5 100755
--- a/activity/subflow/activity.go
+++ b/activity/subflow/activity.go
@@ -60,9 +60,17 @@ type SubFlowActivity struct {
 // Metadata returns the activity's metadata
 func (a *SubFlowActivity) Metadata() *activity.Metadata {
 
+	md, _ := a.getMetadata()
+
+	return md
+}
+
+// getMetadata returns the activity's metadata, with an error if that of the sub-flow isn't available yet
+func (a *SubFlowActivity) getMetadata() (*activity.Metadata, error) {
+
 	if a.activityMd == nil {
 		//singleton version of activity
-		return activityMd
+		return activityMd, nil
 	}
 
 	// have to lazy init for now, because resources are not loaded based on dependency
@@ -72,7 +80,7 @@ func (a *SubFlowActivity) Metadata() *activity.Metadata {
 		if a.mdUpdated == 0 {
 			flowIOMd, err := instance.GetFlowIOMetadata(a.flowURI)
 			if err != nil {
-				return a.activityMd
+				return a.activityMd, err
 			}
 			a.activityMd.IOMetadata = flowIOMd
 
@@ -80,7 +88,7 @@ func (a *SubFlowActivity) Metadata() *activity.Metadata {
 		}
 	}
 
-	return a.activityMd
+	return a.activityMd, nil
 }
 
 // Eval implements api.Activity.Eval
@@ -90,7 +98,11 @@ func (a *SubFlowActivity) Eval(ctx activity.Context) (done bool, err error) {
 
 	input := make(map[string]interface{})
 
-	md := a.Metadata()
+	md, err := a.getMetadata()
+	if err != nil {
+		//without it the sub-flow would be started without inputs
+		return false, err
+	}
 	if md.IOMetadata != nil {
 
 		for name := range md.Input {
-- 
2.43.0


From f8a185bb5a9070122cbbd3f54363566fb3338be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 36/58] fix: loading a remote flow that invokes a remote flow
 deadlocks

---
 instance/util.go      |   6 +--
 support/definition.go |  18 ++++++++
 support/manager.go    | 100 ++++++++++++++++++++++++++++++++++++------
 3 files changed, 107 insertions(+), 17 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index c7bbd50..ded4c0a 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -344,15 +344,15 @@ func applyOutputMapper(taskInst *TaskInst) (bool, error) {
 
 func GetFlowIOMetadata(flowURI string) (*metadata.IOMetadata, error) {
 
-	def, _, err := support.GetDefinition(flowURI)
+	md, exists, err := support.GetDefinitionMetadata(flowURI)
 	if err != nil {
 		return nil, err
 	}
-	if def == nil {
+	if !exists {
 		return nil, errors.New("unable to resolve subflow: " + flowURI)
 	}
 
-	return def.Metadata(), nil
+	return md, nil
 }
 
 func StartSubFlow(ctx activity.Context, flowURI string, inputs map[string]interface{}) error {
diff --git a/support/definition.go b/support/definition.go
index 2eaa433..90104af 100644
--- a/support/definition.go
+++ b/support/definition.go
@@ -3,6 +3,7 @@ package support
 import (
 	"fmt"
 	"github.com/project-flogo/core/app/resource"
+	"github.com/project-flogo/core/data/metadata"
 	"github.com/project-flogo/flow/definition"
 	"strings"
 )
@@ -44,6 +45,23 @@ func GetDefinition(flowURI string) (*definition.Definition, bool, error) {
 	return nil, false, nil
 }
 
+// GetDefinitionMetadata gets the metadata of the definition; unlike GetDefinition it can be used while
+// another definition is being created
+func GetDefinitionMetadata(flowURI string) (*metadata.IOMetadata, bool, error) {
+
+	if !strings.HasPrefix(flowURI, resource.UriScheme) {
+		md, err := flowManager.GetFlowMetadata(flowURI)
+		return md, err == nil, err
+	}
+
+	def, _, err := GetDefinition(flowURI)
+	if err != nil || def == nil {
+		return nil, false, err
+	}
+
+	return def.Metadata(), true, nil
+}
+
 func SetResource(resources []*resource.Config) error {
 	for _, resConfig := range resources {
 		resType, err := resource.GetTypeFromID(resConfig.ID)
diff --git a/support/manager.go b/support/manager.go
index 558495d..d10d6a0 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/project-flogo/core/data/metadata"
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/core/support/log"
 	"github.com/project-flogo/flow/definition"
@@ -24,10 +25,19 @@ const (
 type FlowManager struct {
 	//todo switch to cache
 	rfMu         sync.Mutex // protects the flow maps
-	remoteFlows  map[string]*definition.Definition
+	remoteFlows  map[string]*remoteFlow
 	flowProvider definition.Provider
 }
 
+// remoteFlow is a flow that is loaded on demand
+type remoteFlow struct {
+	repMu sync.Mutex // protects the representation
+	rep   *definition.DefinitionRep
+
+	flowMu sync.Mutex // protects the definition
+	flow   *definition.Definition
+}
+
 func NewFlowManager(flowProvider definition.Provider) *FlowManager {
 	manager := &FlowManager{}
 
@@ -43,31 +53,93 @@ func NewFlowManager(flowProvider definition.Provider) *FlowManager {
 
 func (fm *FlowManager) GetFlow(uri string) (*definition.Definition, error) {
 
-	fm.rfMu.Lock()
-	defer fm.rfMu.Unlock()
-
-	if fm.remoteFlows == nil {
-		fm.remoteFlows = make(map[string]*definition.Definition)
-	}
+	rf := fm.getRemoteFlow(uri)
 
-	flow, exists := fm.remoteFlows[uri]
+	rf.flowMu.Lock()
+	defer rf.flowMu.Unlock()
 
-	if !exists {
+	for rf.flow == nil {
 
-		defRep, err := fm.flowProvider.GetFlow(uri)
+		defRep, fetched, err := fm.getRep(rf, uri)
 		if err != nil {
 			return nil, err
 		}
 
-		flow, err = materializeFlow(defRep)
-		if err != nil {
+		//other flows referred to by this one are looked up here, so only their metadata should be used,
+		//otherwise flows that refer to each other couldn't be loaded
+		flow, err := materializeFlow(defRep)
+		if err == nil {
+			rf.flow = flow
+			break
+		}
+
+		rf.discardRep()
+		if fetched {
 			return nil, err
 		}
+		//it was fetched earlier to get its metadata, so try again
+	}
+
+	return rf.flow, nil
+}
 
-		fm.remoteFlows[uri] = flow
+// GetFlowMetadata gets the metadata of the flow, without creating its definition
+func (fm *FlowManager) GetFlowMetadata(uri string) (*metadata.IOMetadata, error) {
+
+	defRep, _, err := fm.getRep(fm.getRemoteFlow(uri), uri)
+	if err != nil {
+		return nil, err
 	}
 
-	return flow, nil
+	return defRep.Metadata, nil
+}
+
+func (fm *FlowManager) getRemoteFlow(uri string) *remoteFlow {
+
+	fm.rfMu.Lock()
+	defer fm.rfMu.Unlock()
+
+	if fm.remoteFlows == nil {
+		fm.remoteFlows = make(map[string]*remoteFlow)
+	}
+
+	rf, exists := fm.remoteFlows[uri]
+	if !exists {
+		rf = &remoteFlow{}
+		fm.remoteFlows[uri] = rf
+	}
+
+	return rf
+}
+
+func (fm *FlowManager) getRep(rf *remoteFlow, uri string) (rep *definition.DefinitionRep, fetched bool, err error) {
+
+	rf.repMu.Lock()
+	defer rf.repMu.Unlock()
+
+	if rf.rep != nil {
+		return rf.rep, false, nil
+	}
+
+	defRep, err := fm.flowProvider.GetFlow(uri)
+	if err != nil {
+		return nil, false, err
+	}
+	if defRep == nil {
+		return nil, false, fmt.Errorf("flow not found for uri '%s'", uri)
+	}
+
+	rf.rep = defRep
+
+	return defRep, true, nil
+}
+
+func (rf *remoteFlow) discardRep() {
+
+	rf.repMu.Lock()
+	defer rf.repMu.Unlock()
+
+	rf.rep = nil
 }
 
 type BasicRemoteFlowProvider struct {
-- 
2.43.0


From f7ac5c2d8086abef6956114160296e16005eac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 37/58] fix: malformed or empty flow definition panics

---
 support/manager.go  | 17 +++++++++++++++--
 support/resource.go |  5 +----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/support/manager.go b/support/manager.go
index d10d6a0..1442506 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/http"
@@ -218,8 +219,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 		return nil, fmt.Errorf("unsupport uri %s", flowURI)
 	}
 
-	var flow *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &flow)
+	flow, err := decodeFlow(flowDefBytes)
 	if err != nil {
 		logger.Errorf(err.Error())
 		return nil, fmt.Errorf("error marshalling flow with uri '%s', %s", flowURI, err.Error())
@@ -228,6 +228,19 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 	return flow, nil
 }
 
+func decodeFlow(flowDefBytes []byte) (flow *definition.DefinitionRep, err error) {
+
+	//decoding metadata can panic if the definition is malformed
+	defer support.HandlePanic("decodeFlow", &err)
+
+	err = json.Unmarshal(flowDefBytes, &flow)
+	if err == nil && flow == nil {
+		err = errors.New("definition is empty")
+	}
+
+	return flow, err
+}
+
 func decodeAndUnzip(encoded string) ([]byte, error) {
 
 	decoded, _ := base64.StdEncoding.DecodeString(encoded)
diff --git a/support/resource.go b/support/resource.go
index 6cb1d98..7114fff 100644
--- a/support/resource.go
+++ b/support/resource.go
@@ -1,11 +1,9 @@
 package support
 
 import (
-	"encoding/json"
 	"fmt"
 
 	"github.com/project-flogo/core/app/resource"
-	"github.com/project-flogo/flow/definition"
 )
 
 const (
@@ -20,8 +18,7 @@ func (*FlowLoader) LoadResource(config *resource.Config) (*resource.Resource, er
 
 	flowDefBytes = config.Data
 
-	var defRep *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &defRep)
+	defRep, err := decodeFlow(flowDefBytes)
 	if err != nil {
 		return nil, fmt.Errorf("error loading flow resource with id '%s': %s", config.ID, err.Error())
 	}
-- 
2.43.0


From b77baa47fcbcc56dbd2a3b59bb4dde7eff67feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 38/58] fix: compressed flow file isn't recognised and an empty
 one panics

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 1442506..80c9c2d 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -164,7 +164,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) > 1 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From f903f970df3c93c435f0b590facc4e0455592243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 39/58] fix: invalid URL of a flow panics and invalid encoding
 is ignored

---
 support/manager.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 80c9c2d..dda8501 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -178,6 +178,11 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 	} else if strings.HasPrefix(flowURI, uriSchemeHttp) {
 		req, err := http.NewRequest("GET", flowURI, nil)
+		if err != nil {
+			reqErr := fmt.Errorf("error getting flow with uri '%s', %s", flowURI, err.Error())
+			logger.Errorf(reqErr.Error())
+			return nil, reqErr
+		}
 		client := &http.Client{}
 		resp, err := client.Do(req)
 		if err != nil {
@@ -243,7 +248,10 @@ func decodeFlow(flowDefBytes []byte) (flow *definition.DefinitionRep, err error)
 
 func decodeAndUnzip(encoded string) ([]byte, error) {
 
-	decoded, _ := base64.StdEncoding.DecodeString(encoded)
+	decoded, err := base64.StdEncoding.DecodeString(encoded)
+	if err != nil {
+		return nil, err
+	}
 	return unzip(decoded)
 }
 
-- 
2.43.0


From f540b58a49b9719a522eb61662690f80019a0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 40/58] fix: recorded steps aren't replayed in order, older
 values override newer ones and removals and subflows are ignored

---
 state/util.go | 153 +++++++++++++++++++++++++-------------------------
 1 file changed, 75 insertions(+), 78 deletions(-)

diff --git a/state/util.go b/state/util.go
index 6fcce94..89c3f9c 100644
--- a/state/util.go
+++ b/state/util.go
@@ -1,6 +1,11 @@
 package state
 
-import "github.com/project-flogo/flow/state/change"
+import (
+	"sort"
+
+	"github.com/project-flogo/flow/model"
+	"github.com/project-flogo/flow/state/change"
+)
 
 type FlowInfo struct {
 	Id                 string                 `json:"id"`
@@ -17,88 +22,87 @@ type FlowInfo struct {
 	OriginalInstanceId string                 `json:"originalInstanceId"`
 }
 
+// StepsToSnapshot rebuilds the state that the instance had after the steps, which must be all the steps from its start
 func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	first := -1
-	queueDone := false
-
-	for i := len(steps) - 1; i >= 0; i-- {
-		step := steps[i]
-		if len(step.FlowChanges) > 0 {
-			for _, flowChange := range step.FlowChanges {
-
-				if flowChange.SubflowId > 0 {
-					subflow, exists := subflows[flowChange.SubflowId]
-					if !exists {
-						subflow = &Subflow{
-							SnapshotBase: &SnapshotBase{},
-							Id:           flowChange.SubflowId,
-							TaskId:       flowChange.TaskId,
-						}
-					}
-					UpdateFlow(subflow.SnapshotBase, flowChange)
-				} else {
-					// update main flow
-					UpdateFlow(fs.SnapshotBase, flowChange)
+
+	for _, step := range steps {
+		for id, flowChange := range step.FlowChanges {
+
+			if id > 0 {
+				subflow, exists := subflows[id]
+				if !exists {
+					subflow = &Subflow{SnapshotBase: &SnapshotBase{}, Id: id}
+					subflows[id] = subflow
 				}
-			}
-		}
-		if len(step.QueueChanges) > 0 && !queueDone {
-			for id, queueChg := range step.QueueChanges {
-				queueDone = UpdateQueue(fs, id, queueChg, &first)
-				if queueDone {
-					break
+				if flowChange.NewFlow {
+					subflow.TaskId = flowChange.TaskId
 				}
+				UpdateFlow(subflow.SnapshotBase, flowChange)
+			} else {
+				// update main flow
+				UpdateFlow(fs.SnapshotBase, flowChange)
 			}
 		}
 
+		ids := make([]int, 0, len(step.QueueChanges))
+		for id := range step.QueueChanges {
+			ids = append(ids, id)
+		}
+		// work items are numbered in the order they were queued
+		sort.Ints(ids)
+		for _, id := range ids {
+			UpdateQueue(fs, id, step.QueueChanges[id])
+		}
 	}
 
-	for id, subflow := range subflows {
-		if id != 0 {
+	for _, subflow := range subflows {
+		if subflow.Status < int(model.FlowStatusCompleted) {
 			fs.Subflows = append(fs.Subflows, subflow)
 		}
 	}
+	sort.Slice(fs.Subflows, func(i, j int) bool { return fs.Subflows[i].Id < fs.Subflows[j].Id })
 
 	return fs
 }
 
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool {
+// UpdateQueue applies a change to the work queue
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
 
-	if *first == -1 && queueChg.ChgType == change.Delete {
-		*first = id
-	} else {
-		if id == *first {
-			return true
+	for i, item := range fs.WorkQueue {
+		if item.ID == id {
+			if queueChg.ChgType == change.Delete {
+				fs.WorkQueue = append(fs.WorkQueue[:i], fs.WorkQueue[i+1:]...)
+			}
+			return
 		}
 	}
 
-	if queueChg.ChgType == change.Add {
+	if queueChg.ChgType != change.Delete {
 		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
 		})
 	}
-	return false
 }
 
+// UpdateFlow applies the changes of a flow
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
 		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
-				s.Attrs[name] = value
-			}
+			s.Attrs = make(map[string]interface{}, len(change.Attrs))
+		}
+		for name, value := range change.Attrs {
+			s.Attrs[name] = value
 		}
 	}
 
-	if s.Status == 0 {
+	if change.Status != 0 {
 		s.Status = change.Status
 	}
 
@@ -106,61 +110,54 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 		s.FlowURI = change.FlowURI
 	}
 
-	if len(change.Tasks) > 0 {
-		for id, taskChg := range change.Tasks {
-			UpdateTasks(s, id, taskChg)
-		}
+	for id, taskChg := range change.Tasks {
+		UpdateTasks(s, id, taskChg)
 	}
-	if len(change.Links) > 0 {
-		for id, linkChg := range change.Links {
-			UpdateLinks(s, id, linkChg)
-		}
+	for id, linkChg := range change.Links {
+		UpdateLinks(s, id, linkChg)
 	}
 }
 
-func UpdateTasks(snapshot *SnapshotBase, taskId string, change *change.Task) {
+// UpdateTasks applies a change of a task
+func UpdateTasks(snapshot *SnapshotBase, taskId string, taskChg *change.Task) {
 
-	var td *Task
-
-	if snapshot.Tasks != nil {
-		for _, task := range snapshot.Tasks {
-			if task.Id == taskId {
-				td = task
+	for i, task := range snapshot.Tasks {
+		if task.Id == taskId {
+			if taskChg.ChgType == change.Delete {
+				snapshot.Tasks = append(snapshot.Tasks[:i], snapshot.Tasks[i+1:]...)
+			} else {
+				task.Status = taskChg.Status
 			}
+			return
 		}
 	}
 
-	if td == nil {
+	if taskChg.ChgType != change.Delete {
 		snapshot.Tasks = append(snapshot.Tasks, &Task{
 			Id:     taskId,
-			Status: change.Status,
+			Status: taskChg.Status,
 		})
-	} else {
-		if td.Status == 0 {
-			td.Status = change.Status
-		}
 	}
 }
 
-func UpdateLinks(snapshot *SnapshotBase, linkId int, change *change.Link) {
-	var ld *Link
+// UpdateLinks applies a change of a link
+func UpdateLinks(snapshot *SnapshotBase, linkId int, linkChg *change.Link) {
 
-	if snapshot.Links != nil {
-		for _, link := range snapshot.Links {
-			if link.Id == linkId {
-				ld = link
+	for i, link := range snapshot.Links {
+		if link.Id == linkId {
+			if linkChg.ChgType == change.Delete {
+				snapshot.Links = append(snapshot.Links[:i], snapshot.Links[i+1:]...)
+			} else {
+				link.Status = linkChg.Status
 			}
+			return
 		}
 	}
 
-	if ld == nil {
+	if linkChg.ChgType != change.Delete {
 		snapshot.Links = append(snapshot.Links, &Link{
 			Id:     linkId,
-			Status: change.Status,
+			Status: linkChg.Status,
 		})
-	} else {
-		if ld.Status == 0 {
-			ld.Status = change.Status
-		}
 	}
 }
-- 
2.43.0


From e6283e00cf0dfe8ae79a4c4c8ec3eff0f7421877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 41/58] fix: recorded steps and snapshots are incomplete
 (pending work, subflows, abandoned tasks, input defaults)

---
 instance/ind_instance.go | 19 +++++++++++++++++--
 instance/instance.go     |  3 +++
 instance/instance_chg.go |  7 ++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6712d62..ea4aab8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -234,7 +234,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
+				inst.changeTracker.AttrChange(toStart.subflowId, name, value.Value())
 			} else {
 				toStart.attrs[name] = nil
 			}
@@ -1128,15 +1128,30 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
+	if !inst.concurrentExec {
+		// in the order they were queued (the queue can't be traversed while it is used concurrently)
+		for e := inst.workItemQueue.List.Back(); e != nil; e = e.Prev() {
+			if workItem, ok := e.Value.(*WorkItem); ok {
+				fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{ID: workItem.ID, SubflowId: workItem.SubFlowID, TaskId: workItem.TaskID})
+			}
+		}
+	}
+
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
-			sfs := state.Subflow{
+			sfs := &state.Subflow{
 				SnapshotBase: &state.SnapshotBase{},
 				Id:           id,
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, sfs)
 		}
 	}
 	return fs
diff --git a/instance/instance.go b/instance/instance.go
index 3a674c2..d39c8ed 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -214,6 +214,9 @@ func (inst *Instance) clearTasks() {
 		inst.lock.Lock()
 		defer inst.lock.Unlock()
 	}
+	for taskId := range inst.taskInsts {
+		inst.master.changeTracker.TaskRemoved(inst.subflowId, taskId)
+	}
 	inst.taskInsts = make(map[string]*TaskInst)
 }
 
diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 7d3fe61..646c647 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -248,6 +248,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 }
 
@@ -257,6 +258,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 		sct.lock.Lock()
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
+	qc.SubflowId = wi.SubFlowID
 	qc.TaskId = wi.TaskID
 	qc.ChgType = change.Delete
 }
@@ -371,7 +373,10 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
 		step.FlowChanges[subflowId] = fc
 	} else {
-		fc.TaskId = taskId
+		if !fc.NewFlow || subflowId == 0 {
+			// of a new subflow, it is the task that started it
+			fc.TaskId = taskId
+		}
 		if fc.FlowURI == "" {
 			fc.FlowURI = flowname
 		}
-- 
2.43.0


From 0fc1ba3b589bf2698f3f3e4708f012d8511a2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 42/58] fix: restarted instance loses subflows, error handling,
 results and the order of its pending work

---
 definition/definition.go |   5 +
 instance/ind_instance.go | 158 +++++++++++++++++++++--------
 instance/instance_ser.go | 211 +++++++++++++++++++++++++++++++++++----
 state/util.go            |   7 +-
 4 files changed, 315 insertions(+), 66 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 8f6808f..d447a00 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -515,3 +515,8 @@ func (eh *ErrorHandler) Tasks() []*Task {
 func (eh *ErrorHandler) GetTask(taskID string) *Task {
 	return eh.tasks[taskID]
 }
+
+// GetLink returns the link with the specified ID
+func (eh *ErrorHandler) GetLink(linkID int) *Link {
+	return eh.links[linkID]
+}
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ea4aab8..415bb4e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -82,12 +82,7 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.linkInsts = make(map[int]*LinkInst)
 
 	inst.instRecorder = instRecorder
-	if IsConcurrentTaskExcutionEnabled() {
-		inst.Instance.lock = &sync.RWMutex{}
-		inst.Instance.actSchedLock = &sync.Mutex{}
-		inst.Instance.subFlowLock = &sync.Mutex{}
-		inst.concurrentExec = true
-	}
+	inst.initLocks()
 
 	return inst, nil
 }
@@ -1023,31 +1018,21 @@ func getFlowModel(flow *definition.Definition) (*model.FlowModel, error) {
 
 }
 
-// // Restart indicates that this FlowInstance was restarted
+// Restart indicates that this FlowInstance was restarted
 func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepId int) error {
 	inst.id = id
-	inst.logger = logger
 
-	var err error
-	inst.flowDef, _, err = flowsupport.GetDefinition(inst.flowURI)
+	err := inst.restore(logger)
 	if err != nil {
 		return err
 	}
-	if inst.flowDef == nil {
-		return errors.New("unable to resolve flow: " + inst.flowURI)
-	}
-
-	inst.flowModel, err = getFlowModel(inst.flowDef)
-	if err != nil {
-		return err
-	}
-	inst.master = inst
-	inst.init(inst.Instance)
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
-	// Set flow status to active
-	inst.SetStatus(model.FlowStatusActive)
+	if inst.status < model.FlowStatusCompleted || !inst.workItemQueue.IsEmpty() {
+		// Set flow status to active (if it has ended only its results have to be delivered)
+		inst.SetStatus(model.FlowStatusActive)
+	}
 	if initStepId+1 > 0 {
 		// Restart from activity. Read the item from queue
 		step, ok := inst.workItemQueue.Pop()
@@ -1055,8 +1040,10 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 			wi, ok := step.(*WorkItem)
 			if ok {
 				if wi.taskInst != nil {
-					// Update the status
-					wi.taskInst.SetStatus(model.TaskStatusReady)
+					if wi.taskInst.Status() != model.TaskStatusWaiting {
+						// Update the status (unless the activity has been executed and just has to be completed)
+						wi.taskInst.SetStatus(model.TaskStatusReady)
+					}
 					// Add item back to queue
 					inst.workItemQueue.Push(step)
 				}
@@ -1064,37 +1051,124 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		}
 	}
 
-	if initStepId+1 > 0 {
-		// Restart from activity. Read the item from queue
-		step, ok := inst.workItemQueue.Pop()
-		if ok {
-			wi, ok := step.(*WorkItem)
-			if ok {
-				if wi.taskInst != nil {
-					// Update the status
-					wi.taskInst.SetStatus(model.TaskStatusReady)
-					// Add item back to queue
-					inst.workItemQueue.Push(step)
+	return nil
+}
+
+// Resume indicates that this FlowInstance continues
+func (inst *IndependentInstance) Resume(logger log.Logger) error {
+	if inst.flowDef != nil {
+		// it wasn't serialized
+		return nil
+	}
+
+	err := inst.restore(logger)
+	if err != nil {
+		return err
+	}
+	inst.changeTracker = NewInstanceChangeTracker(inst.id, 0)
+	inst.changeTracker.FlowCreated(inst)
+	return nil
+}
+
+// restore initializes the deserialized instance, so that it can be executed
+func (inst *IndependentInstance) restore(logger log.Logger) error {
+	inst.master = inst
+
+	err := inst.restoreFlow(inst.Instance, logger)
+	if err != nil {
+		return err
+	}
+	inst.flowModel, err = getFlowModel(inst.flowDef)
+	if err != nil {
+		return err
+	}
+
+	for _, subflow := range inst.subflows {
+		err = inst.restoreFlow(subflow, logger)
+		if err != nil {
+			return err
+		}
+	}
+
+	for id, subflow := range inst.subflows {
+		if ser, ok := subflow.host.(*serHost); ok {
+			flowInst := inst.Instance
+			if ser.subflowId > 0 {
+				flowInst = inst.subflows[ser.subflowId]
+			}
+			if flowInst != nil {
+				if host, exists := flowInst.taskInsts[ser.taskID]; exists {
+					subflow.host = host
 				}
 			}
 		}
+		if _, ok := subflow.host.(*TaskInst); !ok {
+			return fmt.Errorf("unable to restore subflow [%d] of flow instance [%s], the task that started it is unknown", id, inst.id)
+		}
 	}
 
+	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
+		inst.trackingChanges = true
+	}
+	inst.initLocks()
+
 	return nil
 }
 
-func (inst *IndependentInstance) init(flowInst *Instance) {
+// initLocks creates the locks that are needed when tasks are executed concurrently
+func (inst *IndependentInstance) initLocks() {
+	if IsConcurrentTaskExcutionEnabled() {
+		inst.Instance.lock = &sync.RWMutex{}
+		inst.Instance.actSchedLock = &sync.Mutex{}
+		inst.Instance.subFlowLock = &sync.Mutex{}
+		inst.concurrentExec = true
+		for _, subflow := range inst.subflows {
+			subflow.lock = &sync.RWMutex{}
+		}
+	}
+}
+
+// restoreFlow initializes the deserialized flow
+func (inst *IndependentInstance) restoreFlow(flowInst *Instance, logger log.Logger) error {
+	flowInst.master = inst
+	flowInst.logger = logger
+
+	flowDef, _, err := flowsupport.GetDefinition(flowInst.flowURI)
+	if err != nil {
+		return err
+	}
+	if flowDef == nil {
+		return errors.New("unable to resolve flow: " + flowInst.flowURI)
+	}
+	flowInst.flowDef = flowDef
 
 	for _, taskInst := range flowInst.taskInsts {
-		initTaskInst(taskInst, flowInst, nil)
-		//v.flowInst = flowInst
-		//v.task = flowInst.flowDef.GetTask(v.taskID)
+		task := flowDef.GetTask(taskInst.taskID)
+		if errorHandler := flowDef.GetErrorHandler(); task == nil && errorHandler != nil {
+			task = errorHandler.GetTask(taskInst.taskID)
+		}
+		if task == nil {
+			return fmt.Errorf("flow [%s] doesn't have a task [%s]", flowInst.flowURI, taskInst.taskID)
+		}
+		initTaskInst(taskInst, flowInst, task)
+		if taskInst.workingData != nil {
+			taskInst.workingData.parent = flowInst
+		}
 	}
 
 	for _, linkInst := range flowInst.linkInsts {
+		link := flowDef.GetLink(linkInst.id)
+		if errorHandler := flowDef.GetErrorHandler(); link == nil && errorHandler != nil {
+			link = errorHandler.GetLink(linkInst.id)
+		}
+		if link == nil {
+			return fmt.Errorf("flow [%s] doesn't have a link [%d]", flowInst.flowURI, linkInst.id)
+		}
 		linkInst.flowInst = flowInst
-		linkInst.link = flowInst.flowDef.GetLink(linkInst.id)
+		linkInst.link = link
 	}
+
+	return nil
 }
 
 func (inst *IndependentInstance) SetTracingContext(tracingCtx trace.TracingContext) {
@@ -1129,8 +1203,8 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
 	if !inst.concurrentExec {
-		// in the order they were queued (the queue can't be traversed while it is used concurrently)
-		for e := inst.workItemQueue.List.Back(); e != nil; e = e.Prev() {
+		// the queue can't be traversed while it is used concurrently
+		for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
 			if workItem, ok := e.Value.(*WorkItem); ok {
 				fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{ID: workItem.ID, SubflowId: workItem.SubFlowID, TaskId: workItem.TaskID})
 			}
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 2f56db3..a134e0b 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -2,7 +2,12 @@ package instance
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
+
+	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/support"
+	"github.com/project-flogo/flow/definition"
 	"github.com/project-flogo/flow/model"
 )
 
@@ -18,15 +23,47 @@ type serIndependentInstance struct {
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
+
+	WorkItemCtr int `json:"workItemCtr,omitempty"`
+	SubFlowCtr  int `json:"subFlowCtr,omitempty"`
+	serFlowState
+}
+
+// serFlowState is the state of a flow besides its data, tasks and links
+type serFlowState struct {
+	HandlingError   bool                   `json:"handlingError,omitempty"`
+	ForceCompletion bool                   `json:"forceCompletion,omitempty"`
+	ReturnData      map[string]interface{} `json:"returnData,omitempty"`
+	ReturnError     *serError              `json:"returnError,omitempty"`
+}
+
+func (inst *Instance) flowState() serFlowState {
+	return serFlowState{
+		HandlingError:   inst.isHandlingError,
+		ForceCompletion: inst.forceCompletion,
+		ReturnData:      inst.returnData,
+		ReturnError:     newSerError(inst.returnError),
+	}
+}
+
+func (inst *Instance) setFlowState(ser serFlowState) {
+	inst.isHandlingError = ser.HandlingError
+	inst.forceCompletion = ser.ForceCompletion
+	inst.returnData = ser.ReturnData
+	inst.returnError = ser.ReturnError.toError()
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
 func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
-	queue := make([]*WorkItem, inst.workItemQueue.List.Len())
+	queue := make([]*WorkItem, 0, inst.workItemQueue.List.Len())
 
-	for i, e := 0, inst.workItemQueue.List.Front(); e != nil; i, e = i+1, e.Next() {
-		queue[i], _ = e.Value.(*WorkItem)
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		workItem, ok := e.Value.(*WorkItem)
+		if ok && workItem.taskInst.isLive() {
+			// tasks that were abandoned after they were queued aren't executed
+			queue = append(queue, workItem)
+		}
 	}
 
 	attrs := make(map[string]interface{}, len(inst.attrs))
@@ -58,6 +95,10 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		TaskInsts: tis,
 		LinkInsts: lis,
 		SubFlows:  sfs,
+
+		WorkItemCtr:  inst.wiCounter,
+		SubFlowCtr:   inst.subflowCtr,
+		serFlowState: inst.flowState(),
 	})
 }
 
@@ -70,6 +111,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	}
 
 	inst.Instance = &Instance{}
+	inst.master = inst
 	inst.id = ser.ID
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
@@ -94,13 +136,16 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-	subFlowCtr := 0
+	inst.setFlowState(ser.serFlowState)
+
+	subFlowCtr := ser.SubFlowCtr
 
 	if len(ser.SubFlows) > 0 {
 
 		inst.subflows = make(map[int]*Instance, len(ser.SubFlows))
 
 		for _, value := range ser.SubFlows {
+			value.master = inst
 			inst.subflows[value.subflowId] = value
 
 			if value.subflowId > subFlowCtr {
@@ -108,20 +153,33 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 			}
 		}
 
-		inst.subflowCtr = subFlowCtr
 	}
+	inst.subflowCtr = subFlowCtr
 
+	inst.wiCounter = ser.WorkItemCtr
 	inst.workItemQueue = support.NewSyncQueue()
 
-	for _, workItem := range ser.WorkQueue {
+	// the queue is serialized from its front, to which work items are pushed
+	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
+		workItem := ser.WorkQueue[i]
 
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-			taskInsts = inst.subflows[workItem.SubFlowID].taskInsts
+			subflow := inst.subflows[workItem.SubFlowID]
+			if subflow == nil {
+				return fmt.Errorf("work item [%d] belongs to an unknown subflow [%d]", workItem.ID, workItem.SubFlowID)
+			}
+			taskInsts = subflow.taskInsts
 		}
 
 		workItem.taskInst = taskInsts[workItem.TaskID]
+		if workItem.taskInst == nil {
+			return fmt.Errorf("work item [%d] belongs to an unknown task [%s]", workItem.ID, workItem.TaskID)
+		}
+		if workItem.ID > inst.wiCounter {
+			inst.wiCounter = workItem.ID
+		}
 		inst.workItemQueue.Push(workItem)
 	}
 
@@ -138,6 +196,11 @@ type serInstance struct {
 	Attrs     map[string]interface{} `json:"attrs"`
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
+
+	// the task that started the subflow
+	HostFlowId int    `json:"hostFlowId,omitempty"`
+	HostTaskId string `json:"hostTaskId,omitempty"`
+	serFlowState
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -161,14 +224,27 @@ func (inst *Instance) MarshalJSON() ([]byte, error) {
 		lis = append(lis, linkInst)
 	}
 
-	return json.Marshal(&serInstance{
+	ser := &serInstance{
 		SubFlowId: inst.subflowId,
 		Status:    inst.status,
 		Attrs:     attrs,
 		FlowURI:   inst.flowURI,
 		TaskInsts: tis,
 		LinkInsts: lis,
-	})
+
+		serFlowState: inst.flowState(),
+	}
+
+	switch host := inst.host.(type) {
+	case *TaskInst:
+		ser.HostTaskId = host.taskID
+		ser.HostFlowId = host.flowInst.subflowId
+	case *serHost:
+		ser.HostTaskId = host.taskID
+		ser.HostFlowId = host.subflowId
+	}
+
+	return json.Marshal(ser)
 }
 
 // UnmarshalJSON overrides the default UnmarshalJSON for FlowInstance
@@ -182,6 +258,11 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	inst.subflowId = ser.SubFlowId
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
+	inst.setFlowState(ser.serFlowState)
+
+	if ser.HostTaskId != "" {
+		inst.host = &serHost{subflowId: ser.HostFlowId, taskID: ser.HostTaskId}
+	}
 
 	inst.attrs = make(map[string]interface{}, len(ser.Attrs))
 
@@ -207,24 +288,42 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // TaskInst Serialization
 
+type serTaskInst struct {
+	TaskID    string `json:"id"`
+	Status    int    `json:"status"`
+	Counter   int    `json:"counter,omitempty"`
+	Scheduled bool   `json:"scheduled,omitempty"`
+
+	WorkingData map[string]interface{} `json:"workingData,omitempty"`
+	Settings    map[string]interface{} `json:"settings,omitempty"`
+	Inputs      map[string]interface{} `json:"inputs,omitempty"`
+	Outputs     map[string]interface{} `json:"outputs,omitempty"`
+	ReturnError *serError              `json:"returnError,omitempty"`
+}
+
 // MarshalJSON overrides the default MarshalJSON for TaskInst
 func (ti *TaskInst) MarshalJSON() ([]byte, error) {
 
-	return json.Marshal(&struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{
-		TaskID: ti.task.ID(),
-		Status: int(ti.status),
-	})
+	ser := &serTaskInst{
+		TaskID:      ti.taskID,
+		Status:      int(ti.status),
+		Counter:     ti.counter,
+		Scheduled:   ti.scheduled,
+		Settings:    ti.settings,
+		Inputs:      ti.inputs,
+		Outputs:     ti.outputs,
+		ReturnError: newSerError(ti.returnError),
+	}
+	if ti.workingData != nil {
+		ser.WorkingData = ti.workingData.workingData
+	}
+
+	return json.Marshal(ser)
 }
 
 // UnmarshalJSON overrides the default UnmarshalJSON for TaskInst
 func (ti *TaskInst) UnmarshalJSON(d []byte) error {
-	ser := &struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{}
+	ser := &serTaskInst{}
 
 	if err := json.Unmarshal(d, ser); err != nil {
 		return err
@@ -232,6 +331,21 @@ func (ti *TaskInst) UnmarshalJSON(d []byte) error {
 
 	ti.status = model.TaskStatus(ser.Status)
 	ti.taskID = ser.TaskID
+	ti.id = ser.TaskID
+	if ser.Counter > 0 {
+		ti.counter = ser.Counter
+		ti.id = fmt.Sprintf("%s-%d", ser.TaskID, ser.Counter)
+	}
+	ti.scheduled = ser.Scheduled
+	ti.settings = ser.Settings
+	ti.inputs = ser.Inputs
+	ti.outputs = ser.Outputs
+	ti.returnError = ser.ReturnError.toError()
+
+	if ser.WorkingData != nil {
+		ti.workingData = NewWorkingDataScope(nil)
+		ti.workingData.workingData = ser.WorkingData
+	}
 
 	return nil
 }
@@ -327,7 +441,7 @@ func (li *LinkInst) MarshalJSON() ([]byte, error) {
 		LinkID int `json:"linkId"`
 		Status int `json:"status"`
 	}{
-		LinkID: li.link.ID(),
+		LinkID: li.id,
 		Status: int(li.status),
 	})
 }
@@ -349,6 +463,61 @@ func (li *LinkInst) UnmarshalJSON(d []byte) error {
 	return nil
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////////
+// Error Serialization
+
+type serError struct {
+	Kind      string      `json:"kind,omitempty"`
+	Msg       string      `json:"msg"`
+	Activity  string      `json:"activity,omitempty"`
+	Type      string      `json:"type,omitempty"`
+	Code      string      `json:"code,omitempty"`
+	Data      interface{} `json:"data,omitempty"`
+	Retriable bool        `json:"retriable,omitempty"`
+}
+
+func newSerError(err error) *serError {
+	if err == nil {
+		return nil
+	}
+	ser := &serError{Msg: err.Error()}
+	switch e := err.(type) {
+	case *activity.Error:
+		ser.Kind, ser.Activity, ser.Code, ser.Data, ser.Retriable = "activity", e.ActivityName(), e.Code(), e.Data(), e.Retriable()
+	case *ActivityEvalError:
+		ser.Kind, ser.Activity, ser.Type = "eval", e.TaskName(), e.Type()
+	case *definition.LinkExprError:
+		ser.Kind = "link_expr"
+	}
+	return ser
+}
+
+func (ser *serError) toError() error {
+	if ser == nil {
+		return nil
+	}
+	switch ser.Kind {
+	case "activity":
+		err := activity.NewError(ser.Msg, ser.Code, ser.Data)
+		if ser.Retriable {
+			err = activity.NewRetriableError(ser.Msg, ser.Code, ser.Data)
+		}
+		err.SetActivityName(ser.Activity)
+		return err
+	case "eval":
+		return NewActivityEvalError(ser.Activity, ser.Type, ser.Msg)
+	case "link_expr":
+		return definition.NewLinkExprError(ser.Msg)
+	}
+	return errors.New(ser.Msg)
+}
+
+// serHost identifies the task that started a subflow, until the instance is restored
+type serHost struct {
+	subflowId int
+	taskID    string
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // Flow Instance Changes Serialization
 //
diff --git a/state/util.go b/state/util.go
index 89c3f9c..b58ed23 100644
--- a/state/util.go
+++ b/state/util.go
@@ -52,7 +52,7 @@ func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 		for id := range step.QueueChanges {
 			ids = append(ids, id)
 		}
-		// work items are numbered in the order they were queued
+		// work items are numbered in the order they were queued, the latest is the first to be executed
 		sort.Ints(ids)
 		for _, id := range ids {
 			UpdateQueue(fs, id, step.QueueChanges[id])
@@ -82,11 +82,12 @@ func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
 	}
 
 	if queueChg.ChgType != change.Delete {
-		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
+		item := &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
-		})
+		}
+		fs.WorkQueue = append([]*WorkItem{item}, fs.WorkQueue...)
 	}
 }
 
-- 
2.43.0


From f29debd281964fcadea39387df4cc4ba8f0c85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 43/58] fix: loop or retry of a restarted instance fails or
 starts again

---
 model/simple/dowhilebehavior.go  | 14 ++++-
 model/simple/iteratorbehavior.go | 87 +++++++++++++++++++++++++++++++-
 model/simple/retry.go            |  8 ++-
 3 files changed, 105 insertions(+), 4 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index dd38f22..5edd997 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -115,11 +115,23 @@ func (dw *DoWhileTaskBehavior) updateDoWhileIndex(ctx model.TaskContext) {
 	if !ok {
 		dowhileObj = &DoWhile{Index: 1}
 	} else {
-		dowhileObj.(*DoWhile).Index++
+		dw := getDoWhile(dowhileObj)
+		dw.Index++
+		dowhileObj = dw
 	}
 	ctx.SetWorkingData("iteration", dowhileObj)
 }
 
+// getDoWhile gets the state of the loop, which might have been serialized
+func getDoWhile(dowhileObj interface{}) *DoWhile {
+	dw, ok := dowhileObj.(*DoWhile)
+	if !ok {
+		dw = &DoWhile{}
+		_ = fromWorkingData(dowhileObj, dw)
+	}
+	return dw
+}
+
 func initIndex(ctx model.TaskContext) {
 	dowhileObj, ok := ctx.GetWorkingData("iteration")
 	if !ok {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 482aea6..6e457b9 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -1,6 +1,7 @@
 package simple
 
 import (
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"time"
@@ -37,7 +38,10 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 	iterationAttr, _ := ctx.GetWorkingData("iteration")
 
 	if ok {
-		itx = itxAttr.(Iterator)
+		itx, err = getIterator(ctx, itxAttr)
+		if err != nil {
+			return model.EvalFail, err
+		}
 	} else {
 
 		if ctx.Task().LoopConfig() == nil {
@@ -160,7 +164,10 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	}
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
-	itx := itxAttr.(Iterator)
+	itx, err := getIterator(ctx, itxAttr)
+	if err != nil {
+		return model.EvalFail, err
+	}
 
 	if itx.HasNext() {
 		delayIteration(ctx)
@@ -201,9 +208,57 @@ func delayIteration(ctx model.TaskContext) {
 //	return value, true
 //}
 
+// getIterator gets the iterator of the task, which might have been serialized
+func getIterator(ctx model.TaskContext, itxAttr interface{}) (Iterator, error) {
+
+	if itx, ok := itxAttr.(Iterator); ok {
+		return itx, nil
+	}
+
+	ser := &serIterator{}
+	if err := fromWorkingData(itxAttr, ser); err != nil {
+		return nil, fmt.Errorf("invalid iterator of task '%s': %s", ctx.Task().ID(), err.Error())
+	}
+
+	var itx Iterator
+	switch {
+	case ser.Object != nil:
+		keyMap := make(map[int]string, len(ser.Keys))
+		for i, key := range ser.Keys {
+			keyMap[i] = key
+		}
+		itx = &ObjectIterator{current: ser.Current, keyMap: keyMap, data: ser.Object}
+	case ser.Array != nil:
+		itx = &ArrayIterator{current: ser.Current, data: ser.Array}
+	default:
+		itx = &IntIterator{current: ser.Current, count: ser.Count}
+	}
+	ctx.SetWorkingData("_iterator", itx)
+
+	return itx, nil
+}
+
+// fromWorkingData converts working data that was serialized
+func fromWorkingData(value interface{}, target interface{}) error {
+	b, err := json.Marshal(value)
+	if err != nil {
+		return err
+	}
+	return json.Unmarshal(b, target)
+}
+
 ///////////////////////////////////
 // Iterators
 
+// serIterator is the serialized form of all iterators
+type serIterator struct {
+	Current int                    `json:"current"`
+	Count   int                    `json:"count"`
+	Array   []interface{}          `json:"array,omitempty"`
+	Keys    []string               `json:"keys,omitempty"`
+	Object  map[string]interface{} `json:"object,omitempty"`
+}
+
 type Iterator interface {
 	Key() interface{}
 	Value() interface{}
@@ -244,6 +299,11 @@ func (itx *ArrayIterator) next() bool {
 	return true
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *ArrayIterator) MarshalJSON() ([]byte, error) {
+	return json.Marshal(&serIterator{Current: itx.current, Count: len(itx.data), Array: itx.data})
+}
+
 func NewArrayIterator(data []interface{}) *ArrayIterator {
 	return &ArrayIterator{data: data, current: -1}
 }
@@ -280,6 +340,11 @@ func (itx *IntIterator) next() bool {
 	return true
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *IntIterator) MarshalJSON() ([]byte, error) {
+	return json.Marshal(&serIterator{Current: itx.current, Count: itx.count})
+}
+
 func NewIntIterator(count int) *IntIterator {
 	return &IntIterator{count: count, current: -1}
 }
@@ -318,6 +383,15 @@ func (itx *ObjectIterator) Index() int {
 	return itx.current
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *ObjectIterator) MarshalJSON() ([]byte, error) {
+	keys := make([]string, len(itx.keyMap))
+	for i, key := range itx.keyMap {
+		keys[i] = key
+	}
+	return json.Marshal(&serIterator{Current: itx.current, Count: len(itx.data), Keys: keys, Object: itx.data})
+}
+
 func NewObjectIterator(data map[string]interface{}) *ObjectIterator {
 	keyMap := make(map[int]string, len(data))
 	i := 0
@@ -362,6 +436,15 @@ func (itx *ReflectIterator) Index() int {
 	return itx.current
 }
 
+// MarshalJSON implements json.Marshaler
+func (itx *ReflectIterator) MarshalJSON() ([]byte, error) {
+	data := make([]interface{}, itx.val.Len())
+	for i := range data {
+		data[i] = itx.val.Index(i).Interface()
+	}
+	return json.Marshal(&serIterator{Current: itx.current, Count: len(data), Array: data})
+}
+
 func NewReflectIterator(val reflect.Value) *ReflectIterator {
 	return &ReflectIterator{val: val, current: -1}
 }
diff --git a/model/simple/retry.go b/model/simple/retry.go
index 5590148..c5ffe5b 100644
--- a/model/simple/retry.go
+++ b/model/simple/retry.go
@@ -45,7 +45,13 @@ func getRetryData(ctx model.TaskContext) (retryData *RetryData, err error) {
 	} else {
 		retryData, ok = rd.(*RetryData)
 		if !ok {
-			return nil, fmt.Errorf("error getting retry data")
+			// it was serialized
+			retryData = &RetryData{}
+			err = fromWorkingData(rd, retryData)
+			if err != nil {
+				return nil, fmt.Errorf("error getting retry data")
+			}
+			ctx.SetWorkingData(retryOnErrorAttr, retryData)
 		}
 	}
 
-- 
2.43.0


From 02d688d650ac6a51524f1f63d82cb8f3447d2c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 44/58] fix: resumed instance can't be executed

---
 action.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/action.go b/action.go
index b8e7b50..5814d8b 100644
--- a/action.go
+++ b/action.go
@@ -269,7 +269,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			instLogger := logger
 			if log.CtxLoggingEnabled() {
-				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
+				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowURI", inst.FlowURI()), log.FieldString("flowId", instanceID))
 			}
 			inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
 			//Engine should set init step id one step before current restart step
@@ -286,11 +286,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			inst = initialState
 			logger.Debug("Resuming Flow Instance: ", inst.ID())
 
-			//instLogger := logger
-			//
-			//if log.CtxLoggingEnabled() {
-			//	instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
-			//}
+			instLogger := logger
+			if log.CtxLoggingEnabled() {
+				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowURI", inst.FlowURI()), log.FieldString("flowId", inst.ID()))
+			}
+			inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
+			err := inst.Resume(instLogger)
+			if err != nil {
+				return err
+			}
 
 		} else {
 			return errors.New("unable to resume instance, initial state not provided")
-- 
2.43.0


From caa6e63b1b41313bf41d83239984438cdbcedbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 45/58] fix: restart or resume request without a state has no
 error response

---
 tester/request.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tester/request.go b/tester/request.go
index f2a0af1..8053349 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -2,6 +2,7 @@ package tester
 
 import (
 	"context"
+	"errors"
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/engine/runner"
@@ -93,6 +94,10 @@ func (rp *RequestProcessor) RestartFlow(restartRequest *RestartRequest) (results
 
 	logger.Debugf("Tester restarting flow")
 
+	if restartRequest.InitialState == nil {
+		return nil, errors.New("unable to restart flow, initial state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":restartRequest.InitialState.FlowURI()}
 
@@ -130,6 +135,10 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 
 	logger.Debugf("Tester resuming flow")
 
+	if resumeRequest.State == nil {
+		return nil, errors.New("unable to resume flow, state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
 
-- 
2.43.0


From 5e83c62167f57f6b462d9ab62815f7e546d6388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 46/58] fix: stopped tester service executes requests of open
 connections

---
 tester/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tester/server.go b/tester/server.go
index ec01164..563af7f 100644
--- a/tester/server.go
+++ b/tester/server.go
@@ -91,6 +91,9 @@ func (s *Server) Stop() error {
 		return errors.New("server not started")
 	}
 
+	// requests on open connections finish, but no further ones are accepted
+	s.SetKeepAlivesEnabled(false)
+
 	if err := s.listener.Close(); err != nil {
 		return err
 	}
-- 
2.43.0


From c65c7b2221c28eb8829175ce85286c576e17b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 47/58] fix: restarted instance has the flow id of the original
 in its context

---
 instance/ind_instance.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 415bb4e..8d240c4 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1029,6 +1029,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
+	inst.updateFlowIDs()
 	if inst.status < model.FlowStatusCompleted || !inst.workItemQueue.IsEmpty() {
 		// Set flow status to active (if it has ended only its results have to be delivered)
 		inst.SetStatus(model.FlowStatusActive)
@@ -1054,6 +1055,23 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	return nil
 }
 
+// updateFlowIDs updates the ids in the flow contexts, the state is that of an instance with another id
+func (inst *IndependentInstance) updateFlowIDs() {
+	flowInsts := []*Instance{inst.Instance}
+	for _, subflow := range inst.subflows {
+		flowInsts = append(flowInsts, subflow)
+	}
+
+	for _, flowInst := range flowInsts {
+		if _, ok := flowInst.attrs[flowCtxPrefix+flowId]; ok {
+			_ = flowInst.SetValue(flowCtxPrefix+flowId, flowInst.ID())
+		}
+		if host, ok := flowInst.host.(*TaskInst); ok {
+			_ = flowInst.SetValue(flowCtxPrefix+parentFlowId, host.flowInst.ID())
+		}
+	}
+}
+
 // Resume indicates that this FlowInstance continues
 func (inst *IndependentInstance) Resume(logger log.Logger) error {
 	if inst.flowDef != nil {
-- 
2.43.0


From 26a647bee7ed8e093af5cc1493f58bca1c6a747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 48/58] fix: null entries in an interceptor or a patch cause a
 panic

---
 support/interceptor.go | 3 +++
 support/patch.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index 42a9c64..6a01e07 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -44,6 +44,9 @@ func (pi *Interceptor) Init() {
 		pi.taskInterceptorMap = make(map[string]*TaskInterceptor, numAttrs)
 
 		for _, interceptor := range pi.TaskInterceptors {
+			if interceptor == nil {
+				continue
+			}
 			pi.taskInterceptorMap[interceptor.ID] = interceptor
 		}
 	}
diff --git a/support/patch.go b/support/patch.go
index b547e48..17b6c32 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -22,6 +22,9 @@ func (pp *Patch) Init() {
 		pp.taskPatchMap = make(map[string]*TaskPatch, numAttrs)
 
 		for _, patch := range pp.TaskPatches {
+			if patch == nil {
+				continue
+			}
 			pp.taskPatchMap[patch.ID] = patch
 		}
 	}
-- 
2.43.0


From 4696a6bb8d2ecc8c2241cd2b1a8abac76f6f7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 49/58] fix: state without an instance id is resumed

---
 tester/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tester/request.go b/tester/request.go
index 8053349..274d12f 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -138,6 +138,9 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 	if resumeRequest.State == nil {
 		return nil, errors.New("unable to resume flow, state not provided")
 	}
+	if resumeRequest.State.ID() == "" {
+		return nil, errors.New("unable to resume flow, state of an unknown instance provided")
+	}
 
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
-- 
2.43.0


From 2637a894248f30cf469e440a793e173ad1919bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 50/58] fix: the event of a completed flow reports what the
 flow returned

---
 instance/flowevents.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index f817335..7ed1fb5 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -104,12 +104,15 @@ func (fe *flowEvent) setData(inst *Instance) {
 	if fe.status != event.CREATED {
 		attrs := inst.attrs
 		outData, _ := inst.getReturnData()
+		if fe.status == event.COMPLETED {
+			// what the flow returns, which isn't necessarily among its attributes
+			for name, value := range outData {
+				fe.output[name] = value
+			}
+		}
 		if attrs != nil && len(attrs) > 0 {
 			for name, attVal := range attrs {
 				if outData != nil && outData[name] != nil {
-					if fe.status == event.COMPLETED {
-						fe.output[name] = attVal
-					}
 					// Since same attribute map is used for input and output, filter output attributes
 					continue
 				}
-- 
2.43.0


From e7563df74f177024918524ed5d9751e5a90ff806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 51/58] fix: the first two steps of a restarted instance have
 the same number

---
 instance/ind_instance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 8d240c4..6005844 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1027,7 +1027,12 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		return err
 	}
 
-	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
+	startStepId := initStepId
+	if startStepId < 0 {
+		// not restarted from a step, the steps are numbered from 0
+		startStepId = 0
+	}
+	inst.changeTracker = NewInstanceChangeTracker(inst.id, startStepId)
 	inst.changeTracker.FlowCreated(inst)
 	inst.updateFlowIDs()
 	if inst.status < model.FlowStatusCompleted || !inst.workItemQueue.IsEmpty() {
-- 
2.43.0


From 706e629573d096877d3d22ad1a4dac3d7e6f3874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 52/58] fix: a reconfiguration changes the settings running
 instances are using

---
 definition/definition.go | 45 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index d447a00..b61c904 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -3,6 +3,7 @@ package definition
 import (
 	"encoding/json"
 	"fmt"
+	"sync"
 
 	"github.com/project-flogo/core/app/resource"
 	"github.com/project-flogo/core/data/coerce"
@@ -117,8 +118,11 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Main flow tasks
 	if def.Tasks != nil {
 		for _, taskRep := range def.Tasks {
+			if taskRep == nil {
+				continue
+			}
 			task := d.tasks[taskRep.ID]
-			if task != nil && len(task.activityCfg.settings) > 0 {
+			if task != nil && len(task.activityCfg.getSettings()) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
 				if err != nil {
 					log.RootLogger().Errorf("%s", err.Error())
@@ -130,8 +134,11 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Error handler tasks
 	if def.ErrorHandler != nil && d.errorHandler != nil {
 		for _, taskRep := range def.ErrorHandler.Tasks {
+			if taskRep == nil {
+				continue
+			}
 			task := d.errorHandler.tasks[taskRep.ID]
-			if task != nil && len(task.activityCfg.settings) > 0 {
+			if task != nil && len(task.activityCfg.getSettings()) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
 				if err != nil {
 					log.RootLogger().Errorf("%s", err.Error())
@@ -146,18 +153,29 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 
 func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factory) error {
 	var err error
+	if taskRep.ActivityCfgRep == nil {
+		return fmt.Errorf("failed to reconfigure activity [%s]: activity not specified", task.ID())
+	}
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
+		// the current settings are in use by the running instances, so they
+		// are replaced once the activity has accepted the new ones
+		current := task.activityCfg.getSettings()
+		settings := make(map[string]interface{}, len(current))
+		for name, value := range current {
+			settings[name] = value
+		}
 		for name, value := range taskRep.ActivityCfgRep.Settings {
-			task.activityCfg.settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
+			settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
 			if err != nil {
 				return fmt.Errorf("unable to resolve setting [%s]'s value [%s]:%s", name, value, err.Error())
 			}
 		}
-		err = reconfigurable.Reconfigure(task.activityCfg.settings)
+		err = reconfigurable.Reconfigure(settings)
 		if err != nil {
 			return fmt.Errorf("failed to reconfigure activity [%s] due to error:%v", task.ID(), err)
 		} else {
+			task.activityCfg.setSettings(settings)
 			log.RootLogger().Infof("Activity: %s successfully reconfigured", task.ID())
 		}
 	}
@@ -189,7 +207,8 @@ type ActivityConfig struct {
 	HostName string
 	Type     string
 
-	settings map[string]interface{}
+	settingsLock sync.RWMutex
+	settings     map[string]interface{}
 
 	inputMapper  mapper.Mapper
 	outputMapper mapper.Mapper
@@ -234,8 +253,8 @@ func (ac *ActivityConfig) Ref() string {
 // GetSetting gets the specified setting
 func (ac *ActivityConfig) GetSetting(setting string) (val interface{}, exists bool) {
 
-	if ac.settings != nil {
-		val, found := ac.settings[setting]
+	if settings := ac.getSettings(); settings != nil {
+		val, found := settings[setting]
 		if found {
 			return val, true
 		}
@@ -244,6 +263,18 @@ func (ac *ActivityConfig) GetSetting(setting string) (val interface{}, exists bo
 	return nil, false
 }
 
+func (ac *ActivityConfig) getSettings() map[string]interface{} {
+	ac.settingsLock.RLock()
+	defer ac.settingsLock.RUnlock()
+	return ac.settings
+}
+
+func (ac *ActivityConfig) setSettings(settings map[string]interface{}) {
+	ac.settingsLock.Lock()
+	defer ac.settingsLock.Unlock()
+	ac.settings = settings
+}
+
 // InputMapper returns the InputMapper of the task
 func (ac *ActivityConfig) InputMapper() mapper.Mapper {
 	return ac.inputMapper
-- 
2.43.0


From 45a20adebd97fd0a3794e0d1af3a748a036da98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 53/58] fix: activities of error handlers are not cleaned up

---
 definition/definition.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index b61c904..fb0ae77 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -85,7 +85,16 @@ func (d *Definition) GetAttr(attrName string) (attr *data.Attribute, exists bool
 }
 
 func (d *Definition) Cleanup() error {
-	for id, task := range d.tasks {
+	cleanupActivities(d.tasks)
+	if d.errorHandler != nil {
+		cleanupActivities(d.errorHandler.tasks)
+	}
+
+	return nil
+}
+
+func cleanupActivities(tasks map[string]*Task) {
+	for id, task := range tasks {
 		if !activity.IsSingleton(task.activityCfg.Activity) {
 			if needsDisposal, ok := task.activityCfg.Activity.(support.NeedsCleanup); ok {
 				err := needsDisposal.Cleanup()
@@ -95,8 +104,6 @@ func (d *Definition) Cleanup() error {
 			}
 		}
 	}
-
-	return nil
 }
 
 func (d *Definition) Reconfigure(config *resource.Config) error {
-- 
2.43.0


From d303fee0f76f91e44b9c42fa410b8cee2223c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 54/58] fix: outputs of an activity that completes later are
 not validated

With schema validation enabled, outputs that violate the declared schema
failed the activity only if it was done when it was evaluated. Those of
an activity that completes in its post-evaluation, among them all
activities invoking a flow, were passed on.
---
 instance/taskinst.go | 48 ++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index ca5b0c7..bce62e3 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -436,22 +436,12 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 	if done {
 
-		if schema.ValidationEnabled() {
-			if v, ok := actCfg.Activity.(schema.ValidationBypass); !(ok && v.BypassValidation()) {
-				//do validation
-				for name, value := range ti.outputs {
-					s := actCfg.GetOutputSchema(name)
-					if s != nil {
-						err := s.Validate(value)
-						if err != nil {
-							return false, err
-						}
-					}
-				}
-			}
+		err := ti.validateOutputs()
+		if err != nil {
+			return false, err
 		}
 
-		err := applyOutputInterceptor(ti)
+		err = applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
 		}
@@ -482,6 +472,29 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 	return done, nil
 }
 
+// validateOutputs validates the outputs of the activity using their schemas
+func (ti *TaskInst) validateOutputs() error {
+	if !schema.ValidationEnabled() {
+		return nil
+	}
+
+	actCfg := ti.task.ActivityConfig()
+	if v, ok := actCfg.Activity.(schema.ValidationBypass); ok && v.BypassValidation() {
+		return nil
+	}
+
+	for name, value := range ti.outputs {
+		s := actCfg.GetOutputSchema(name)
+		if s != nil {
+			err := s.Validate(value)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (ti *TaskInst) applyOutputMapper() error {
 	if ti.task.ActivityConfig().OutputMapper() != nil {
 		appliedMapper, err := applyOutputMapper(ti)
@@ -545,7 +558,12 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 
 	if done {
 
-		err := applyOutputInterceptor(ti)
+		err := ti.validateOutputs()
+		if err != nil {
+			return false, err
+		}
+
+		err = applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From 662d6d31af494f3da4062e844e7a2ba7666410ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:17 +0000
Subject: [PATCH 55/58] fix: a restored instance lost that it had returned no
 data

A flow that returns empty data delivers just that, and not the defaults of
its outputs. The empty data were left out when the instance was serialised, so
that it delivered the defaults if it was restored after its return.
---
 instance/instance_ser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index a134e0b..aacb40e 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -33,7 +33,7 @@ type serIndependentInstance struct {
 type serFlowState struct {
 	HandlingError   bool                   `json:"handlingError,omitempty"`
 	ForceCompletion bool                   `json:"forceCompletion,omitempty"`
-	ReturnData      map[string]interface{} `json:"returnData,omitempty"`
+	ReturnData      map[string]interface{} `json:"returnData"` // returning nothing isn't the same as not returning
 	ReturnError     *serError              `json:"returnError,omitempty"`
 }
 
-- 
2.43.0


From 03880899b3e02e101f9ec73377b37a3d5c2c6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 56/58] fix: serialising a deserialised instance that was not
 restored panics

---
 instance/taskinst.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index bce62e3..5fe0a3f 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -93,6 +93,10 @@ func (ti *TaskInst) isLive() bool {
 
 	for ti != nil {
 		flowInst := ti.flowInst
+		if flowInst == nil {
+			// it was deserialized and not restored yet, only live ones are serialized
+			return true
+		}
 		if flowInst.status != model.FlowStatusActive || flowInst.taskInsts[ti.taskID] != ti {
 			return false
 		}
-- 
2.43.0


From 3a809c48c985652962cc8d71078b17a24c666389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:01 +0000
Subject: [PATCH 57/58] fix: a task still executing concurrently when the flow
 ended replies after completion was notified

---
 instance/instance.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index d39c8ed..84bf3bc 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -164,7 +164,16 @@ func (inst *Instance) IOMetadata() *metadata.IOMetadata {
 
 func (inst *Instance) Reply(replyData map[string]interface{}, err error) {
 	if inst.resultHandler != nil {
-		inst.setReturnData(replyData)
+		if inst.lock != nil {
+			inst.lock.Lock()
+			defer inst.lock.Unlock()
+
+			if inst.status >= model.FlowStatusCompleted {
+				//called by a task that was executing concurrently when the flow ended
+				return
+			}
+		}
+		inst.returnData = replyData
 		inst.resultHandler.HandleResult(replyData, err)
 	}
 }
@@ -192,14 +201,6 @@ func (inst *Instance) hasReturned() bool {
 	return inst.forceCompletion
 }
 
-func (inst *Instance) setReturnData(returnData map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
-	inst.returnData = returnData
-}
-
 func (inst *Instance) setError(err error) {
 	if inst.lock != nil {
 		inst.lock.Lock()
-- 
2.43.0


From 5582601ef52ce9a779947f771064458413d7de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 58/58] fix: recorded outputs of an ended flow differ from the
 delivered ones if a task was still executing concurrently

---
 action.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 5814d8b..ed31e4a 100644
--- a/action.go
+++ b/action.go
@@ -402,8 +402,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			}
 		}
 
+		var returnData map[string]interface{}
 		if inst.Status() == model.FlowStatusCompleted {
-			returnData, err := inst.GetReturnData()
+			var err error
+			returnData, err = inst.GetReturnData()
 			if inst.TracingContext() != nil {
 				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), nil)
 			}
@@ -438,7 +440,12 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		}
 
 		if stateRecorder != nil {
-			stateRecorder.RecordDone(inst.GetFlowState(inputs))
+			flowState := inst.GetFlowState(inputs)
+			if inst.Status() == model.FlowStatusCompleted {
+				//record what was delivered, tasks that were executing concurrently might have set values since
+				flowState.FlowOutputs = returnData
+			}
+			stateRecorder.RecordDone(flowState)
 		}
 	}()
 
-- 
2.43.0

