From c928ba06119ffadd7ee44aaa12d09f17a19e59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:59 +0000
Subject: [PATCH 01/47] fix: keep checkpoints complete and paired when training
 is killed while saving

The model and optimizer files were written in place one after the other, so a process
killed in between left a truncated file or a model and an optimizer of different
checkpoints, from which training resumed or failed to resume.
---
 qadence/ml_tools/callbacks/saveload.py | 48 ++++++++++++++++++++------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 614f4ba..4e641d4 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import os
 import re
+from contextlib import suppress
 from logging import getLogger
 from pathlib import Path
 from typing import Any
@@ -13,6 +14,9 @@ from torch.optim import Optimizer
 
 logger = getLogger("ml_tools")
 
+# Ending of checkpoint files which are complete but not yet in place.
+PENDING_SUFFIX = ".pending"
+
 
 def get_latest_checkpoint_name(folder: Path, type: str, device: str | torch.device = "cpu") -> Path:
     file = Path("")
@@ -55,11 +59,27 @@ def load_checkpoint(
     if not folder.exists():
         folder.mkdir(parents=True)
         return model, optimizer, 0
+    _finish_pending_checkpoints(folder)
     model, iter = load_model(folder, model, model_ckpt_name, device)
     optimizer = load_optimizer(folder, optimizer, opt_ckpt_name, device)
     return model, optimizer, iter
 
 
+def _finish_pending_checkpoints(folder: Path) -> None:
+    """Finish checkpoints whose writing was interrupted after they were complete.
+
+    A pending model file is only created once both files of the checkpoint are complete,
+    see `write_checkpoint`.
+    """
+    for f in sorted(os.listdir(folder)):
+        match = re.search(r"^model_.*(_ckpt_.*\.pt)" + re.escape(PENDING_SUFFIX) + "$", f)
+        if match:
+            opt_ending = match.group(1) + PENDING_SUFFIX
+            opt_files = [o for o in os.listdir(folder) if o.startswith("opt_")]
+            for name in [o for o in opt_files if o.endswith(opt_ending)] + [f]:
+                os.replace(folder / name, folder / name[: -len(PENDING_SUFFIX)])
+
+
 def write_checkpoint(
     folder: Path,
     model: Module,
@@ -96,26 +116,34 @@ def write_checkpoint(
         + f"_device_{device}"
         + ".pt"
     )
+    # Killing the process at any point must neither leave incomplete files behind nor mix files of
+    # different checkpoints. Hence, the files are first written completely under another name, then
+    # both marked as pending (the model last), and only then replace a previous checkpoint.
+    files = [folder / opt_checkpoint_name, folder / model_checkpoint_name]
+    temporary = [Path(f"{f}.tmp") for f in files]
+    pending = [Path(f"{f}{PENDING_SUFFIX}") for f in files]
     try:
+        if isinstance(optimizer, Optimizer):
+            torch.save((iteration, type(optimizer), optimizer.state_dict()), temporary[0])
+        elif isinstance(optimizer, NGOptimizer):
+            optimizer.dump(temporary[0])
         d = (
             model._to_dict(save_params=True)
             if isinstance(model, (QNN, QuantumModel))
             else model.state_dict()
         )
-        torch.save((iteration, d), folder / model_checkpoint_name)
+        torch.save((iteration, d), temporary[1])
+        for sources, targets in [(temporary, pending), (pending, files)]:
+            for source, target in zip(sources, targets):
+                if source.exists():
+                    os.replace(source, target)
         logger.info(f"Writing {type(model).__name__} checkpoint {model_checkpoint_name}")
-    except Exception as e:
-        logger.exception(e)
-    try:
-        if isinstance(optimizer, Optimizer):
-            torch.save(
-                (iteration, type(optimizer), optimizer.state_dict()), folder / opt_checkpoint_name
-            )
-        elif isinstance(optimizer, NGOptimizer):
-            optimizer.dump(folder / opt_checkpoint_name)
         logger.info(f"Writing {type(optimizer).__name__} to checkpoint {opt_checkpoint_name}")
     except Exception as e:
         logger.exception(e)
+        with suppress(OSError):
+            for file in temporary:
+                file.unlink(missing_ok=True)
 
 
 def load_model(
-- 
2.43.0


From ce434e9c0ca3b790cb555f4761896c112e696763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:02 +0000
Subject: [PATCH 02/47] fix: do not restore the optimizer or iteration of a
 checkpoint whose model failed to load

---
 qadence/ml_tools/callbacks/saveload.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 4e641d4..24d79eb 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -60,9 +60,11 @@ def load_checkpoint(
         folder.mkdir(parents=True)
         return model, optimizer, 0
     _finish_pending_checkpoints(folder)
-    model, iter = load_model(folder, model, model_ckpt_name, device)
-    optimizer = load_optimizer(folder, optimizer, opt_ckpt_name, device)
-    return model, optimizer, iter
+    iter = _load_model_state(folder, model, model_ckpt_name, device)
+    # An optimizer state is of no use to a model other than the one it was saved with.
+    if iter is not None or opt_ckpt_name != "":
+        optimizer = load_optimizer(folder, optimizer, opt_ckpt_name, device)
+    return model, optimizer, iter or 0
 
 
 def _finish_pending_checkpoints(folder: Path) -> None:
@@ -154,9 +156,21 @@ def load_model(
     *args: Any,
     **kwargs: Any,
 ) -> tuple[Module, int]:
+    iteration = _load_model_state(folder, model, model_ckpt_name, device, *args, **kwargs)
+    return model, iteration or 0
+
+
+def _load_model_state(
+    folder: Path,
+    model: Module,
+    model_ckpt_name: str | Path = "",
+    device: str | torch.device = "cpu",
+    *args: Any,
+    **kwargs: Any,
+) -> int | None:
+    """Load a checkpoint into the model, returning its iteration or None if it is not loaded."""
     from qadence import QNN, QuantumModel
 
-    iteration = 0
     if model_ckpt_name == "":
         model_ckpt_name = get_latest_checkpoint_name(folder, "model", device)
 
@@ -177,7 +191,8 @@ def load_model(
         msg = f"""Unable to load state dict due to {e}.
                             No corresponding pre-trained model found."""
         logger.warning(msg)
-    return model, iteration
+        return None
+    return iteration
 
 
 def load_optimizer(
-- 
2.43.0


From be7574c1a8638fdfc5bd5eb1365fa06265243015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:28 +0000
Subject: [PATCH 03/47] fix: run tests on all batches of the test dataloader,
 also when it is the trainer's own

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0


From 121e3be9226ff466020cf8c456abcf469d8bd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 04/47] fix: label the initial validation of a repeated fit
 with its starting iteration

---
 qadence/ml_tools/callbacks/callbackmanager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/callbacks/callbackmanager.py b/qadence/ml_tools/callbacks/callbackmanager.py
index ebbb621..6c873b1 100644
--- a/qadence/ml_tools/callbacks/callbackmanager.py
+++ b/qadence/ml_tools/callbacks/callbackmanager.py
@@ -176,6 +176,7 @@ class CallbacksManager:
         # Clear all handlers from the logger
         self.initialize_callbacks()
 
+        trainer.current_epoch = trainer.global_step
         trainer.opt_result = OptimizeResult(trainer.global_step, trainer.model, trainer.optimizer)
         trainer.is_last_iteration = False
 
-- 
2.43.0


From 6442a7e562f3de4bc6d840541e0073fedeab9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 05/47] fix: anneal the learning rate along the cosine curve
 from its initial value

---
 qadence/ml_tools/callbacks/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..bc766a1 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,7 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From 8a2fc878073bd75203c8ea09ea1d14cd7b9f3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 06/47] fix: never reuse the sub-folder of another run

---
 qadence/ml_tools/train_utils/config_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/train_utils/config_manager.py b/qadence/ml_tools/train_utils/config_manager.py
index 44baf52..5d85021 100644
--- a/qadence/ml_tools/train_utils/config_manager.py
+++ b/qadence/ml_tools/train_utils/config_manager.py
@@ -101,7 +101,14 @@ class ConfigManager:
         timestamp = datetime.datetime.now().strftime("%Y%m%dT%H%M%S")
         pid_hex = hex(os.getpid())[2:]
         run_id = len(self.config._subfolders) + 1
-        subfolder_name = f"{run_id}_{timestamp}_{pid_hex}"
+        while True:
+            subfolder_name = f"{run_id}_{timestamp}_{pid_hex}"
+            try:
+                (Path(self.config.root_folder) / subfolder_name).mkdir(parents=True)
+                break
+            except FileExistsError:
+                # The name is taken by another run, e.g. one started within the same second.
+                run_id += 1
         self.config._subfolders.append(str(subfolder_name))
         self._added_new_subfolder = True
 
-- 
2.43.0


From d77fc8eb26ec486ab8e301bd27113c0a1520a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:06 +0000
Subject: [PATCH 07/47] fix: use the rank assigned by torchrun also on CPU

Every process launched by torchrun for CPU training took rank 0, so the
process group could never be formed.
---
 qadence/ml_tools/train_utils/execution.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qadence/ml_tools/train_utils/execution.py b/qadence/ml_tools/train_utils/execution.py
index 4d7119c..f3dace1 100644
--- a/qadence/ml_tools/train_utils/execution.py
+++ b/qadence/ml_tools/train_utils/execution.py
@@ -333,8 +333,6 @@ class TorchRunexecution(BaseExecution):
         Returns:
             int: The global rank of the process.
         """
-        if self.compute == "cpu":
-            return int(process_rank)
         return int(os.environ.get("RANK", process_rank))
 
     def get_local_rank(self, process_rank: int) -> int | None:
-- 
2.43.0


From 8010d95100a2f4140702d4384b38054c8e7e67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:24 +0000
Subject: [PATCH 08/47] fix: give every spawned process its own parameters

torch.multiprocessing passes CPU tensors in shared memory, so all processes
of a CPU training updated one and the same parameters concurrently: every
optimizer step was applied once per process, or partly lost.
---
 qadence/ml_tools/train_utils/accelerator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index a48d0d6..debd313 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -295,6 +295,12 @@ class Accelerator(Distributor):
 
         # If using distributed training with more than one device:
         if self.world_size > 1:
+            if self.rank != 0:
+                # Spawned processes receive CPU tensors in shared memory. Only the first process
+                # keeps them, otherwise every process would update the very same parameters.
+                for tensor in [*model.parameters(), *model.buffers()]:
+                    if tensor.is_shared() and not tensor.is_cuda:
+                        tensor.data = tensor.data.clone()
             if self.execution.device.startswith("cuda"):
                 # For GPU-based training: wrap the model with DDP and specify the local GPU.
                 model = DDP(model, device_ids=[self.local_rank])
@@ -316,6 +322,12 @@ class Accelerator(Distributor):
             optim.Optimizer: The unmodified optimizer.
         """
         # Optimizers are not device-specific in this context, so no action is needed.
+        if self.world_size > 1 and self.rank != 0:
+            # As for models, the state of the optimizer must not be shared between processes.
+            for state in optimizer.state.values():
+                for key, value in state.items():
+                    if isinstance(value, torch.Tensor) and value.is_shared() and not value.is_cuda:
+                        state[key] = value.clone()
         return optimizer
 
     def _prepare_data(self, dataloader: DataLoader | DictDataLoader) -> DataLoader | DictDataLoader:
-- 
2.43.0


From a85947f3f25447b083c0b499f9fcb49bdb65a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:24 +0000
Subject: [PATCH 09/47] fix: save and return the plain model in distributed
 training

Checkpoints held the parameters of the DistributedDataParallel wrapper, which
neither single-process nor distributed training could load again.
---
 qadence/ml_tools/callbacks/saveload.py | 3 +++
 qadence/ml_tools/trainer.py            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 24d79eb..57348d8 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -10,6 +10,7 @@ from typing import Any
 import torch
 from nevergrad.optimization.base import Optimizer as NGOptimizer
 from torch.nn import Module
+from torch.nn.parallel import DistributedDataParallel as DDP
 from torch.optim import Optimizer
 
 logger = getLogger("ml_tools")
@@ -91,6 +92,8 @@ def write_checkpoint(
     from qadence import QuantumModel
     from qadence.ml_tools.models import QNN
 
+    if isinstance(model, DDP):
+        model = model.module
     device = None
     try:
         # We extract the device from the pyqtorch native circuit
diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index 71d2711..311261f 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -7,6 +7,7 @@ from typing import Any, Callable, Iterable, cast
 from nevergrad.optimization.base import Optimizer as NGOptimizer
 import torch
 from torch import nn, optim
+from torch.nn.parallel import DistributedDataParallel as DDP
 from torch.utils.data import DataLoader
 from rich.progress import BarColumn, Progress, TaskProgressColumn, TextColumn, TimeRemainingColumn
 
@@ -354,6 +355,8 @@ class Trainer(BaseTrainer):
     def _fit_end(self) -> None:
         """Finalizes the training and closes the writer."""
         self.callback_manager.end_training(trainer=self)
+        if isinstance(self.model, DDP):
+            self.model = self.model.module
 
     @BaseTrainer.callback("train")
     def _train(self) -> list[list[tuple[torch.Tensor, dict[str, Any]]]]:
-- 
2.43.0


From 18933f3ac427836141c2d157d485a1d227731da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 10/47] fix: resume all processes of a distributed training
 from the loaded checkpoint

Only the first process continued with the loaded optimizer state and
iteration, so the replicas diverged and validated at different epochs.
---
 qadence/ml_tools/callbacks/callbackmanager.py | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/qadence/ml_tools/callbacks/callbackmanager.py b/qadence/ml_tools/callbacks/callbackmanager.py
index 6c873b1..510af42 100644
--- a/qadence/ml_tools/callbacks/callbackmanager.py
+++ b/qadence/ml_tools/callbacks/callbackmanager.py
@@ -4,6 +4,8 @@ import copy
 import logging
 from typing import Any
 
+from torch.optim import Optimizer
+
 from qadence.ml_tools.callbacks.callback import (
     Callback,
     LoadCheckpoint,
@@ -188,6 +190,8 @@ class CallbacksManager:
                 config=self.config,
                 writer=None,  # type: ignore[arg-type]
             )
+            if trainer.accelerator.world_size > 1:
+                loaded_result = self._share_loaded_result(trainer, loaded_result)
 
             if loaded_result:
                 model, optimizer, init_iter = loaded_result
@@ -207,6 +211,28 @@ class CallbacksManager:
         if trainer.accelerator.rank == 0:
             self.writer.open(self.config, iteration=trainer.global_step)
 
+    @staticmethod
+    def _share_loaded_result(trainer: Any, loaded_result: Any) -> Any:
+        """Gives the checkpoint loaded by the first process to all processes.
+
+        Args:
+            trainer (Any): The training object managing the training process.
+            loaded_result (Any): Loaded model, optimizer and iteration in the first process.
+        """
+        state = None
+        if loaded_result:
+            model, optimizer, init_iter = loaded_result
+            is_torch = isinstance(optimizer, Optimizer)
+            state = model.state_dict(), optimizer.state_dict() if is_torch else None, init_iter
+        state = trainer.accelerator.broadcast(state, src=0)
+        if loaded_result or not state:
+            return loaded_result
+        model_state, optimizer_state, init_iter = state
+        trainer.model.load_state_dict(model_state)
+        if optimizer_state is not None:
+            trainer.optimizer.load_state_dict(optimizer_state)
+        return trainer.model, trainer.optimizer, init_iter
+
     def end_training(self, trainer: Any) -> None:
         """
         Cleans up and finalizes the training process.
-- 
2.43.0


From f2f2699bbe1ecc6d255607a316a0c95994cba97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 11/47] fix: split the data by global rank

On several nodes, processes with equal local rank were given the same part of
the data and the remaining parts were never used.
---
 qadence/ml_tools/train_utils/accelerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index debd313..abc48cc 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -363,7 +363,7 @@ class Accelerator(Distributor):
         - If distributed training is enabled:
             - Checks if the dataset is not an instance of `InfiniteTensorDataset`.
                 - If so, creates a `DistributedSampler` for the dataset using the total number
-                    of replicas (`self.world_size`) and the current process's rank (`self.local_rank`).
+                    of replicas (`self.world_size`) and the current process's rank (`self.rank`).
                 - Otherwise (i.e., for infinite datasets), no sampler is set (sampler remains `None`).
             - Returns a new DataLoader configured with:
                 - The same dataset and batch size as the original.
@@ -382,7 +382,7 @@ class Accelerator(Distributor):
             if not isinstance(dataloader.dataset, InfiniteTensorDataset):
                 # If the dataset is not an infinite dataset, create a DistributedSampler.
                 sampler = DistributedSampler(
-                    dataloader.dataset, num_replicas=self.world_size, rank=self.local_rank
+                    dataloader.dataset, num_replicas=self.world_size, rank=self.rank
                 )
             else:
                 # For infinite datasets, we do not use a sampler since the dataset
-- 
2.43.0


From cc8b093fa20eec02e1c25733a9b2bfdd10a8e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 12/47] fix: let an interrupt of distributed training take
 effect after the epoch

A process that left an epoch halfway left the others waiting for it in a
collective operation.
---
 qadence/ml_tools/trainer.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index 311261f..1605845 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -1,9 +1,11 @@
 from __future__ import annotations
 
 import copy
+import signal
+from contextlib import contextmanager
 from itertools import islice
 from logging import getLogger
-from typing import Any, Callable, Iterable, cast
+from typing import Any, Callable, Iterable, Iterator, cast
 from nevergrad.optimization.base import Optimizer as NGOptimizer
 import torch
 from torch import nn, optim
@@ -396,11 +398,33 @@ class Trainer(BaseTrainer):
                     epoch_start, epoch_end, train_task, val_task
                 )
         else:
-            train_losses, val_losses = self._train_epochs(epoch_start, epoch_end)
+            with self._deferred_interrupts():
+                train_losses, val_losses = self._train_epochs(epoch_start, epoch_end)
 
         self.on_train_end(train_losses, val_losses)
         return train_losses
 
+    @contextmanager
+    def _deferred_interrupts(self) -> Iterator[None]:
+        """
+        Lets an interrupt of a distributed training take effect after the current epoch.
+
+        If one process left an epoch halfway, the others would wait for it forever.
+        """
+
+        def request_stop(*_: Any) -> None:
+            self._stop_training.fill_(1)
+
+        try:
+            previous = signal.signal(signal.SIGINT, request_stop)
+        except ValueError:  # signals are only handled in the main thread
+            yield
+            return
+        try:
+            yield
+        finally:
+            signal.signal(signal.SIGINT, previous)
+
     def _train_epochs(
         self,
         epoch_start: int,
-- 
2.43.0


From 43a021227b22258702690a2e83109973510bb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:00 +0000
Subject: [PATCH 13/47] fix: do not let one training determine the number of
 processes of the next

The environment variables set for a training (WORLD_SIZE, MASTER_PORT, ...)
stayed set afterwards, so that a later training in the same program ran with
the number of processes and the port of the earlier one.
---
 qadence/ml_tools/train_utils/accelerator.py  | 13 +++++++------
 qadence/ml_tools/train_utils/distribution.py | 17 +++++++++++++++++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index abc48cc..be215ce 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -124,18 +124,19 @@ class Accelerator(Distributor):
                 method_name = fun.__name__
                 method = getattr(instance, method_name)
                 args = args[1:]
-                self._spawn_method(instance, method, args, kwargs)
             else:
                 instance = None
                 # method_name = fun.__name__
                 # module = inspect.getmodule(fun)
                 # method = getattr(module, method_name) if module else fun
-                self._spawn_method(instance, fun, args, kwargs)
+                method = fun
 
-            if instance and hasattr(instance, "accelerator"):
-                instance.accelerator.finalize()
-            else:
-                self.finalize()
+            accelerator = instance.accelerator if hasattr(instance, "accelerator") else self
+            try:
+                self._spawn_method(instance, method, args, kwargs)
+                accelerator.finalize()
+            finally:
+                accelerator.restore_environment()
 
             # TODO: Return the original returns from fun
             # Currently it only returns the model and optimizer
diff --git a/qadence/ml_tools/train_utils/distribution.py b/qadence/ml_tools/train_utils/distribution.py
index e65967b..080ce28 100644
--- a/qadence/ml_tools/train_utils/distribution.py
+++ b/qadence/ml_tools/train_utils/distribution.py
@@ -63,6 +63,8 @@ class Distributor:
             dtype (torch.dtype | None): Data type for controlling numerical precision. Default is None.
         """
         self._nprocs: int
+        # values of the environment variables before they were set for a training
+        self._previous_environ: dict[str, str | None] = {}
         self.rank: int
         self.world_size: int
         self.local_rank: int | None
@@ -156,6 +158,8 @@ class Distributor:
         self.rank = self.execution.get_rank(process_rank)
         self.execution.set_device(self.local_rank)
         # Set environment variables for distributed training
+        for variable in ["RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT"]:
+            self._previous_environ.setdefault(variable, os.environ.get(variable))
         os.environ["RANK"] = str(self.rank)
         os.environ["WORLD_SIZE"] = str(self.world_size)
         os.environ["LOCAL_RANK"] = str(self.local_rank)
@@ -198,6 +202,19 @@ class Distributor:
             if self.rank == 0:
                 logger.info("Killing Distributed Process Group")
 
+    def restore_environment(self) -> None:
+        """
+        Restore the environment variables which were set for the training.
+
+        Otherwise, they would determine the number of processes of later trainings.
+        """
+        for variable, value in self._previous_environ.items():
+            if value is None:
+                os.environ.pop(variable, None)
+            else:
+                os.environ[variable] = value
+        self._previous_environ = {}
+
     def _log_warnings(self) -> None:
 
         if self.execution_type == ExecutionType.TORCHRUN:
-- 
2.43.0


From 10f8f4a9d9b654359542c23f14564c711bb81ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 14/47] fix: number the processes of several nodes
 consecutively

On CPU, every node started numbering its processes from 0; on GPU, ranks were
left out when a node ran fewer processes than it has GPUs.
---
 qadence/ml_tools/train_utils/distribution.py | 1 +
 qadence/ml_tools/train_utils/execution.py    | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/qadence/ml_tools/train_utils/distribution.py b/qadence/ml_tools/train_utils/distribution.py
index 080ce28..c7158fe 100644
--- a/qadence/ml_tools/train_utils/distribution.py
+++ b/qadence/ml_tools/train_utils/distribution.py
@@ -82,6 +82,7 @@ class Distributor:
             self.nprocs = 1
         else:
             self.nprocs = nprocs
+            self.execution.procs_per_node = nprocs // self.execution.num_nodes
 
     # -----------------------------------------------------------------------------
     # PROCESS level methods
diff --git a/qadence/ml_tools/train_utils/execution.py b/qadence/ml_tools/train_utils/execution.py
index f3dace1..f8ce7e0 100644
--- a/qadence/ml_tools/train_utils/execution.py
+++ b/qadence/ml_tools/train_utils/execution.py
@@ -165,6 +165,8 @@ class BaseExecution(ABC):
         self.cores_per_node: int = (
             int(torch.cuda.device_count()) if torch.cuda.is_available() else 1
         )
+        # number of processes on each node, set according to the total number of processes
+        self.procs_per_node: int = self.cores_per_node
 
     def _set_compute(self) -> None:
         """
@@ -244,11 +246,10 @@ class DefaultExecution(BaseExecution):
             Priority is given to the "RANK" environment variable; if not found, in a SLURM environment,
             the "SLURM_PROCID" is used. Defaults to 0.
         """
-        if self.compute == "cpu":
-            return int(process_rank)
         local_rank = self.get_local_rank(process_rank)
-        multi_node_index = self.node_rank * self.cores_per_node
-        return int(multi_node_index + local_rank) if local_rank else int(multi_node_index)
+        if local_rank is None:
+            local_rank = process_rank
+        return int(self.node_rank * self.procs_per_node + local_rank)
 
     def get_local_rank(self, process_rank: int) -> int | None:
         """
-- 
2.43.0


From 9461fc01f230a779ddebfdcd6a839a32351457a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:26 +0000
Subject: [PATCH 15/47] fix: wait for a cloud result for the full timeout

---
 qadence/pasqal_cloud_connection.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/qadence/pasqal_cloud_connection.py b/qadence/pasqal_cloud_connection.py
index 71ef45e..6141dba 100644
--- a/qadence/pasqal_cloud_connection.py
+++ b/qadence/pasqal_cloud_connection.py
@@ -219,17 +219,22 @@ def get_result(
             again, when the workload is not finished yet. Defaults to 1.0.
 
     Raises:
-        TimeoutError: _description_
+        TimeoutError: Is raised when the workload is not finished after `timeout` seconds.
 
     Returns:
         The workload result if its status is "DONE" as a `pasqal_cloud.Workload` object.
     """
-    max_refresh_count = int(timeout // refresh_time)
-    for _ in range(max_refresh_count):
+    start = time.monotonic()
+    waited = 0.0
+    while True:
+        # The last request is made when (or just after) the timeout has elapsed.
+        timed_out = max(waited, time.monotonic() - start) >= timeout
         try:
-            result = check_status(connection, workload_id)
+            return check_status(connection, workload_id)
         except WorkloadNotDoneError:
-            time.sleep(refresh_time)
-            continue
-        return result
-    raise TimeoutError("Request timed out because it wasn't finished in the specified time. ")
+            if timed_out:
+                raise TimeoutError(
+                    "Request timed out because it wasn't finished in the specified time. "
+                )
+        time.sleep(refresh_time)
+        waited += refresh_time
-- 
2.43.0


From 9a706f53bf85b0494afd3cf049b8539511eb4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 16/47] fix: deserialize controlled rotations, multi-controlled
 gates and PHASE

---
 qadence/blocks/primitive.py       | 25 ++++++++++++++-----------
 qadence/operations/control_ops.py |  7 +++++++
 qadence/operations/parametric.py  |  6 ++++--
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..1a27f14 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -362,10 +362,18 @@ class TimeEvolutionBlock(ParametricBlock):
         return not isinstance(self.generator, AbstractBlock)
 
 
+def _split_control(cls: type, d: dict) -> tuple[int | tuple[int, ...], tuple[int, ...]]:
+    """Control and target arguments to build a serialized (parametric) control gate."""
+    target = tuple(d["blocks"][0]["qubit_support"])
+    control = tuple(d["qubit_support"][: -len(target)])
+    return (control[0] if cls.single_control else control), target  # type: ignore
+
+
 class ControlBlock(PrimitiveBlock):
     """The abstract ControlBlock."""
 
     name = "Control"
+    single_control: bool = False  # whether the control is given as an integer
     control: tuple[int, ...]
     target: tuple[int, ...]
 
@@ -417,9 +425,8 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        control, target = _split_control(cls, d)
+        return cls(control, *target, NoiseHandler._from_dict(d.get("noise")))  # type: ignore
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -431,6 +438,7 @@ class ParametricControlBlock(ParametricBlock):
     """The abstract parametrized ControlBlock."""
 
     name = "ParameterizedControl"
+    single_control: bool = False  # whether the control is given as an integer
     control: tuple[int, ...] = ()
     blocks: tuple[ParametricBlock, ...]
 
@@ -478,14 +486,9 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
-        return block
+        control, target = _split_control(cls, d)
+        params = ParamMap._from_dict(d["blocks"][0]["parameters"])
+        return cls(control, *target, params, NoiseHandler._from_dict(d.get("noise")))  # type: ignore
 
     @property
     def _block_title(self) -> str:
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..ed91e8c 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -35,6 +35,7 @@ class CNOT(ControlBlock):
     """The CNot, or CX, gate."""
 
     name = OpName.CNOT
+    single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         self.generator = kron(N(control), X(target) - I(target))
@@ -95,6 +96,7 @@ class CZ(MCZ):
     """The CZ gate."""
 
     name = OpName.CZ
+    single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
@@ -132,6 +134,7 @@ class CRX(MCRX):
     """The CRX gate."""
 
     name = OpName.CRX
+    single_control = True
 
     def __init__(
         self,
@@ -175,6 +178,7 @@ class CRY(MCRY):
     """The CRY gate."""
 
     name = OpName.CRY
+    single_control = True
 
     def __init__(
         self, control: int, target: int, parameter: TParameter, noise: NoiseHandler | None = None
@@ -214,6 +218,7 @@ class CRZ(MCRZ):
     """The CRZ gate."""
 
     name = OpName.CRZ
+    single_control = True
 
     def __init__(
         self,
@@ -270,6 +275,7 @@ class CPHASE(MCPHASE):
     """The CPHASE gate."""
 
     name = OpName.CPHASE
+    single_control = True
 
     def __init__(
         self,
@@ -285,6 +291,7 @@ class CSWAP(ControlBlock):
     """The CSWAP (Control-SWAP) gate."""
 
     name = OpName.CSWAP
+    single_control = True
 
     def __init__(
         self,
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..03e8bc2 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -36,10 +36,12 @@ class PHASE(ParametricBlock):
     def __init__(
         self,
         target: int,
-        parameter: Parameter | TNumber | sympy.Expr | str,
+        parameter: Parameter | TNumber | sympy.Expr | str | ParamMap,
         noise: NoiseHandler | None = None,
     ) -> None:
-        self.parameters = ParamMap(parameter=parameter)
+        self.parameters = (
+            parameter if isinstance(parameter, ParamMap) else ParamMap(parameter=parameter)
+        )
         self.generator = I(target) - Z(target)
         super().__init__((target,), noise=noise)
 
-- 
2.43.0


From c70aad314e0ab908213b8beabf050a0a5c8c4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:41 +0000
Subject: [PATCH 17/47] fix: serialize projectors and deserialize U

---
 qadence/blocks/primitive.py      | 8 ++++++++
 qadence/operations/parametric.py | 8 ++++++++
 qadence/operations/primitive.py  | 4 ++++
 3 files changed, 20 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 1a27f14..023bfc3 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -551,3 +551,11 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["ket"], d["bra"], tuple(d["qubit_support"]), noise)
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 03e8bc2..bed78d2 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -180,6 +180,14 @@ class U(ParametricBlock):
     def num_parameters(cls) -> int:
         return 3
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> U:
+        params = ParamMap._from_dict(d["parameters"])
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        block = cls(d["qubit_support"][0], params.phi, params.theta, params.omega, noise)
+        block.parameters = params
+        return block
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor([-1, 1], dtype=torch.cdouble)
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..9b8f243 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -164,6 +164,10 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        return cls(d["qubit_support"][0], d["ket"], NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From 77200dac1173673005f3ffbb44cfed5fb82b3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:35 +0000
Subject: [PATCH 18/47] fix: keep the noise of blocks and models read from json

---
 qadence/noise/protocols.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..9791f6f 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -6,6 +6,17 @@ from typing import Any
 from qadence.types import NoiseEnum, NoiseProtocol
 
 
+def _as_enum(protocol: str | NoiseEnum, option: dict) -> NoiseEnum:
+    """The noise protocol for its serialized form, which is a plain string in json files."""
+    kinds = (NoiseProtocol.DIGITAL, NoiseProtocol.READOUT, NoiseProtocol.ANALOG)
+    if isinstance(protocol, kinds):
+        return protocol
+    if "noise_probs" in option:  # option of analog noise, see `NoiseHandler`
+        return NoiseProtocol.ANALOG(protocol)
+    is_readout = protocol in [p.value for p in NoiseProtocol.READOUT]
+    return NoiseProtocol.READOUT(protocol) if is_readout else NoiseProtocol.DIGITAL(protocol)
+
+
 class NoiseHandler:
     """A container for multiple sources of noise.
 
@@ -141,7 +152,8 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            protocols = [_as_enum(p, o) for p, o in zip(d["protocol"], d["options"])]
+            return cls(protocols, d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From c798cab66fc0e4d2a4b59b013424310e402a544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:56 +0000
Subject: [PATCH 19/47] fix: load models with measurement options, mitigation
 or without observable

---
 qadence/measurements/protocols.py | 2 +-
 qadence/mitigations/protocols.py  | 2 +-
 qadence/model.py                  | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..2055ffa 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], options=d["options"])
         return None
diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..ada227e 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], options=d["options"])
         return None
 
     @classmethod
diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..d17e5be 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -473,7 +473,7 @@ class QuantumModel(nn.Module):
             if isinstance(self._observable, list):
                 abs_obs = [obs.abstract._to_dict() for obs in self._observable]
             else:
-                abs_obs = [dict()]
+                abs_obs = None  # type: ignore[assignment]
 
             d = {
                 "circuit": self._circuit.abstract._to_dict(),
@@ -484,6 +484,9 @@ class QuantumModel(nn.Module):
                     self._measurement._to_dict() if self._measurement is not None else dict()
                 ),
                 "noise": self._noise._to_dict() if self._noise is not None else dict(),
+                "mitigation": (
+                    self._mitigation._to_dict() if self._mitigation is not None else dict()
+                ),
                 "backend_configuration": asdict(self.backend.backend.config),  # type: ignore
             }
             param_dict_conv = {}
@@ -522,6 +525,7 @@ class QuantumModel(nn.Module):
                 diff_mode=qm_dict["diff_mode"],
                 measurement=Measurements._from_dict(qm_dict["measurement"]),
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
+                mitigation=Mitigations._from_dict(qm_dict.get("mitigation", dict())),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
             )
 
-- 
2.43.0


From 5e99d3debeb834a2620b4a7c51c3b8cf9d4796e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:56 +0000
Subject: [PATCH 20/47] fix: restore the stored parameters when loading a model

---
 qadence/ml_tools/models.py | 2 +-
 qadence/model.py           | 4 +++-
 qadence/serialization.py   | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..f1c9a99 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -492,7 +492,7 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index d17e5be..8d47f87 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -533,7 +533,7 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
@@ -632,6 +632,8 @@ class QuantumModel(nn.Module):
             qm_pt = torch.load(file_path, map_location=map_location, weights_only=False)
         except Exception as e:
             logger.error(f"Unable to load QuantumModel due to {e}")
+        if isinstance(qm_pt, tuple):  # checkpoints also contain the iteration
+            _, qm_pt = qm_pt
         return cls._from_dict(qm_pt, as_torch)
 
     def assign_parameters(self, values: dict[str, Tensor]) -> Any:
diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..846c1c7 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -478,4 +478,4 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    return deserialize(d, as_torch=bool(d.get("param_dict")))
-- 
2.43.0


From 9d805e7dd8ff2a62352bb490782b372c74ec125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:28 +0000
Subject: [PATCH 21/47] fix: replace saved files only by completely written
 ones

---
 qadence/model.py         |  4 +++-
 qadence/serialization.py | 10 +++++++---
 qadence/utils.py         | 16 +++++++++++++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index 8d47f87..dd49d79 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -31,6 +31,7 @@ from qadence.utils import (
     block_to_mathematical_expression,
     check_param_dict_values,
     merge_separate_params,
+    replace_when_complete,
 )
 from qadence.transpile import set_as_variational, set_as_fixed
 
@@ -602,7 +603,8 @@ class QuantumModel(nn.Module):
         if not os.path.isdir(folder):
             raise FileNotFoundError
         try:
-            torch.save(self._to_dict(save_params), folder / Path(file_name))
+            with replace_when_complete(folder / Path(file_name)) as path:
+                torch.save(self._to_dict(save_params), path)
         except Exception as e:
             logger.error(f"Unable to write QuantumModel to disk due to {e}")
 
diff --git a/qadence/serialization.py b/qadence/serialization.py
index 846c1c7..98d2c20 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -24,6 +24,7 @@ from qadence.blocks.utils import tag
 from qadence.parameters import Parameter
 from qadence.register import Register
 from qadence.types import SerializationFormat
+from qadence.utils import replace_when_complete
 
 # Modules to be automatically added to the qadence namespace
 __all__ = ["deserialize", "load", "save", "serialize"]
@@ -217,12 +218,15 @@ class ExpressionSerialization(SerializationModel):
 
 
 def save_pt(d: dict, file_path: str | Path) -> None:
-    torch.save(d, file_path)
+    with replace_when_complete(file_path) as path:
+        torch.save(d, path)
 
 
 def save_json(d: dict, file_path: str | Path) -> None:
-    with open(file_path, "w") as file:
-        file.write(json.dumps(d))
+    content = json.dumps(d)
+    with replace_when_complete(file_path) as path:
+        with open(path, "w") as file:
+            file.write(content)
 
 
 def load_pt(file_path: str | Path, map_location: str) -> Any:
diff --git a/qadence/utils.py b/qadence/utils.py
index df822f0..154bc8b 100644
--- a/qadence/utils.py
+++ b/qadence/utils.py
@@ -1,11 +1,14 @@
 from __future__ import annotations
 
 import math
+import os
 import re
 from collections import Counter
+from contextlib import contextmanager
 from functools import partial
 from logging import getLogger
-from typing import TYPE_CHECKING, Any
+from pathlib import Path
+from typing import TYPE_CHECKING, Any, Iterator
 
 import numpy as np
 import sympy
@@ -30,6 +33,17 @@ __all__ = []  # type: ignore
 logger = getLogger(__name__)
 
 
+@contextmanager
+def replace_when_complete(file_path: str | Path) -> Iterator[Path]:
+    """Path of a temporary file which replaces `file_path` once it is completely written."""
+    temporary = Path(f"{file_path}.{os.getpid()}.tmp")
+    try:
+        yield temporary
+        os.replace(temporary, file_path)
+    finally:
+        temporary.unlink(missing_ok=True)
+
+
 def merge_separate_params(param_dict: ParamDictType) -> ParamDictType:
     """Merge circuit and observables parameters."""
     merged_dict: ParamDictType = dict()
-- 
2.43.0


From 0d825531a78ee04e5664fb4d52f45f8a96ebea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:22 +0000
Subject: [PATCH 22/47] fix: keep the positions of registers read from their
 dict

---
 qadence/analog/device.py | 3 +--
 qadence/register.py      | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..f22053a 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From d82d939eac2a2e5db3de1a3507d70b770245161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:18 +0000
Subject: [PATCH 23/47] fix: mitigate with the computed confusion matrices and
 keep the shots

---
 qadence/backends/pyqtorch/backend.py |  2 +-
 qadence/mitigations/readout.py       | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..10deb8a 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -300,13 +300,13 @@ class Backend(BackendInterface):
         samples: list[Counter] = circuit.native.sample(
             state=state, values=param_values, n_shots=n_shots
         )
-        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         if mitigation is not None:
             logger.warning(
                 "Mitigation protocol is deprecated. Use qadence-protocols instead.",
             )
             assert noise
             samples = apply_mitigation(noise=noise, mitigation=mitigation, samples=samples)
+        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         return samples
 
     def assign_parameters(self, circuit: ConvertedCircuit, param_values: ParamDictType) -> Any:
diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..ffc91fe 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -56,8 +56,9 @@ def renormalize_counts(corrected_counts: npt.NDArray, n_shots: int) -> npt.NDArr
     total_counts = sum(corrected_counts)
     if total_counts != n_shots:
         counts_diff = total_counts - n_shots
-        corrected_counts -= counts_diff
-        corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
+        shifted_counts = np.clip(corrected_counts - counts_diff, 0, None)
+        if shifted_counts.any():
+            corrected_counts = shifted_counts
         sum_corrected_counts = sum(corrected_counts)
 
         renormalization_factor = n_shots / sum_corrected_counts
@@ -95,10 +96,10 @@ def mitigation_minimization(
     if readout_noise is None:
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
     n_shots = sum(samples[0].values())
-    noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
+    if hasattr(readout_noise, "create_noise_matrix"):
+        # Computes the confusion matrices unless they were given.
         readout_noise.create_noise_matrix(n_shots)
-        noise_matrices = readout_noise.confusion_matrix
+    noise_matrices = readout_noise.confusion_matrix
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
 
     corrected_counters: list[Counter] = []
@@ -148,12 +149,9 @@ def mitigation_minimization(
 
         # Renormalize if total counts differs from n_shots.
         corrected_counts = renormalize_counts(corrected_counts=corrected_counts, n_shots=n_shots)
-        # At this point, the count should be off by at most 2, added or substracted to/from the
-        # max count.
-        if sum(corrected_counts) != n_shots:
-            count_diff = sum(corrected_counts) - n_shots
-            max_count_bs = np.argmax(corrected_counts)
-            corrected_counts[max_count_bs] -= count_diff
+        # What rounding left over or lacks is substracted from or added to the max count.
+        while (count_diff := sum(corrected_counts) - n_shots) != 0:
+            corrected_counts[np.argmax(corrected_counts)] -= np.sign(count_diff)
         assert (
             corrected_counts.sum() == n_shots
         ), f"Corrected counts sum: {corrected_counts.sum()}, n_shots: {n_shots}"
-- 
2.43.0


From d6b0168faa8c21a82a9b214b6052ee63abb36ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:35 +0000
Subject: [PATCH 24/47] fix: ignore identities and keep batches in shot-based
 expectation values

---
 qadence/measurements/shadow.py | 13 ++++---------
 qadence/measurements/utils.py  | 23 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..df7f8ad 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,6 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
@@ -116,9 +115,7 @@ def extract_operators(unitary_ids: np.ndarray, n_qubits: int) -> list:
         list: Pauli strings.
     """
     operations = nested_operator_indexing(unitary_ids)
-    if n_qubits > 1:
-        operations = [kron_if_non_empty(ops) for ops in operations]
-    return operations
+    return [kron_if_non_empty(ops) for ops in operations]
 
 
 def classical_shadow(
@@ -204,11 +201,9 @@ def estimators(
         obs_to_pauli_index = [pauli_gates.index(type(observable))]
 
     elif isinstance(observable, CompositeBlock):
-        obs_to_pauli_index = [
-            pauli_gates.index(type(p)) for p in observable.blocks if not isinstance(p, I)  # type: ignore[arg-type]
-        ]
-        ind_I = set(get_qubit_indices_for_op((observable, 1.0), I(0)))
-        obs_qubit_support = tuple([ind for ind in observable.qubit_support if ind not in ind_I])
+        pauli_blocks = [p for p in observable.blocks if not isinstance(p, I)]
+        obs_to_pauli_index = [pauli_gates.index(type(p)) for p in pauli_blocks]  # type: ignore[arg-type]
+        obs_qubit_support = tuple(p.qubit_support[0] for p in pauli_blocks)
 
     floor = int(np.floor(N / K))
     traces = []
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..d401b82 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -11,6 +11,7 @@ from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
+from qadence.backends.utils import infer_batchsize
 from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
@@ -39,6 +40,19 @@ def get_qubit_indices_for_op(
     return indices
 
 
+def get_measured_qubits(pauli_term: Tuple[AbstractBlock, Basic]) -> List[int]:
+    """Get the qubit indices on which the Pauli term does not act as the identity.
+
+    Args:
+        pauli_term: Tuple of a Pauli block and a parameter.
+
+    Returns: A list of integers representing qubit indices.
+    """
+    blocks = getattr(pauli_term[0], "blocks", None)
+    blocks = blocks if blocks is not None else [pauli_term[0]]
+    return [block.qubit_support[0] for block in blocks if not isinstance(block, I)]
+
+
 def get_counts(samples: List, support: List[int]) -> List[Counter]:
     """Marginalise the probability mass function to the support.
 
@@ -93,7 +107,7 @@ def pauli_z_expectation(
 
     estimated_values = []
     for pauli_term in pauli_decomposition:
-        support = get_qubit_indices_for_op(pauli_term)
+        support = get_measured_qubits(pauli_term)
         estim_values = empirical_average(samples=samples, support=support)
         # TODO: support for parametric observables to be tested
         estimated_values.append(estim_values * evaluate(pauli_term[1]))
@@ -147,16 +161,17 @@ def iterate_pauli_decomposition(
     """
 
     estimated_values = []
+    batch_size = max(infer_batchsize(param_values), 1 if state is None else state.size(0))
 
     for pauli_term in pauli_decomposition:
         if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
+            estimated_values.append(torch.ones(batch_size) * evaluate(pauli_term[1]))
         else:
-            # Get the full qubit support for the Pauli term.
+            # Get the qubit support on which the Pauli term does not act as the identity.
             # Note: duplicates must be kept here to allow for
             # observables chaining multiple operations on the same qubit
             # such as `b = chain(Z(0), Z(0))`
-            support = get_qubit_indices_for_op(pauli_term)
+            support = get_measured_qubits(pauli_term)
             # Rotate the circuit according to the given observable term.
             rotated_circuit = rotate(circuit=circuit, pauli_term=pauli_term)
             # Use the low-level backend API to avoid embedding of parameters
-- 
2.43.0


From ab9019a4f4e5ce20741c25927a55052be83bec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:43 +0000
Subject: [PATCH 25/47] fix: estimate number operators from the shots that
 count them

---
 qadence/measurements/utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index d401b82..07b6c2c 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -16,7 +16,7 @@ from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y
+from qadence.operations import H, I, N, SDagger, X, Y
 from qadence.parameters import evaluate
 from qadence.utils import Endianness
 
@@ -41,7 +41,7 @@ def get_qubit_indices_for_op(
 
 
 def get_measured_qubits(pauli_term: Tuple[AbstractBlock, Basic]) -> List[int]:
-    """Get the qubit indices on which the Pauli term does not act as the identity.
+    """Get the qubit indices on which the term acts with a Pauli operator other than identity.
 
     Args:
         pauli_term: Tuple of a Pauli block and a parameter.
@@ -50,7 +50,7 @@ def get_measured_qubits(pauli_term: Tuple[AbstractBlock, Basic]) -> List[int]:
     """
     blocks = getattr(pauli_term[0], "blocks", None)
     blocks = blocks if blocks is not None else [pauli_term[0]]
-    return [block.qubit_support[0] for block in blocks if not isinstance(block, I)]
+    return [block.qubit_support[0] for block in blocks if not isinstance(block, (I, N))]
 
 
 def get_counts(samples: List, support: List[int]) -> List[Counter]:
@@ -71,23 +71,28 @@ def get_counts(samples: List, support: List[int]) -> List[Counter]:
     ]
 
 
-def empirical_average(samples: List, support: List[int]) -> Tensor:
+def empirical_average(
+    samples: List, support: List[int], number_support: List[int] | None = None
+) -> Tensor:
     """Compute the empirical average.
 
     Args:
         samples: List of samples against which expectation value is to be computed.
         support: A list of integers representing qubit indices.
+        number_support: Qubit indices of number operators, which only count shots in state 1.
 
     Returns: A torch.Tensor of the empirical average.
     """
     PARITY = -1
-    counters = get_counts(samples, support)
+    counters = get_counts(samples, support + (number_support or []))
     n_shots = np.sum(list(counters[0].values()))
     expectations = []
     for counter in counters:
         counter_exps = []
         for bitstring, count in counter.items():
-            counter_exps.append(count * PARITY ** (np.sum([int(bit) for bit in bitstring])))
+            if "0" not in bitstring[len(support) :]:
+                sign = PARITY ** (np.sum([int(bit) for bit in bitstring[: len(support)]]))
+                counter_exps.append(count * sign)
         expectations.append(np.sum(counter_exps) / n_shots)
     return torch.tensor(expectations)
 
@@ -167,7 +172,7 @@ def iterate_pauli_decomposition(
         if pauli_term[0].is_identity:
             estimated_values.append(torch.ones(batch_size) * evaluate(pauli_term[1]))
         else:
-            # Get the qubit support on which the Pauli term does not act as the identity.
+            # Get the qubit support on which the term has a Pauli operator other than identity.
             # Note: duplicates must be kept here to allow for
             # observables chaining multiple operations on the same qubit
             # such as `b = chain(Z(0), Z(0))`
@@ -186,7 +191,8 @@ def iterate_pauli_decomposition(
                 noise=noise,
                 endianness=endianness,
             )
-            estim_values = empirical_average(samples=samples, support=support)
+            number_support = get_qubit_indices_for_op(pauli_term, op=N(0))
+            estim_values = empirical_average(samples, support, number_support)
             # TODO: support for parametric observables to be tested
             estimated_values.append(estim_values * evaluate(pauli_term[1]))
     res = torch.sum(torch.stack(estimated_values), axis=0)
-- 
2.43.0


From ac9655f52b78e5beb798d85dbc24da204139d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:03 +0000
Subject: [PATCH 26/47] fix: keep the order of parameters independent of the
 hash seed

---
 qadence/blocks/embedding.py | 2 +-
 qadence/blocks/utils.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/embedding.py b/qadence/blocks/embedding.py
index 4fa6fab..2428b43 100644
--- a/qadence/blocks/embedding.py
+++ b/qadence/blocks/embedding.py
@@ -43,7 +43,7 @@ def _concretize_parameter(engine: Engine) -> Callable:
 
 
 def unique(x: Iterable) -> List:
-    return list(set(x))
+    return list(dict.fromkeys(x))
 
 
 def embedding(
diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 1759b9a..aa52e73 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -203,7 +203,7 @@ def parameters(block: AbstractBlock) -> list[Parameter | Basic]:
     params = []
     exprs = uuid_to_expression(block).values()
     for expr in exprs:
-        symbols = list(expr.free_symbols)
+        symbols = sorted(expr.free_symbols, key=str)
         if len(symbols) == 0:
             # assert expr.is_number or isinstance(expr, sympy.Matrix)
             params.append(expr)
@@ -336,7 +336,7 @@ def expressions(block: AbstractBlock) -> list[Basic]:
     Each element of 'parameters' is a sympy expression which can be a constant,
     a single parameter or an expression consisting of both symbols and constants.
     """
-    return list(set(uuid_to_expression(block).values()))
+    return list(dict.fromkeys(uuid_to_expression(block).values()))
 
 
 def block_is_qubit_hamiltonian(block: AbstractBlock) -> bool:
-- 
2.43.0


From fe37aa962dd506a300138580aef564924998a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:03 +0000
Subject: [PATCH 27/47] fix: run a list of circuits

---
 qadence/execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..32f8a45 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -105,7 +105,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
     results = ()
     for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
+        results += (run(c, **kwargs),)  # type:ignore[assignment]
     return concat(results, dim=0)
 
 
-- 
2.43.0


From 91c9f757a0e517449cf1587313a67f8ad84719d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:48 +0000
Subject: [PATCH 28/47] fix: let several iterators share an infinite dataset

---
 qadence/ml_tools/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index f8f30e9..3209207 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -84,8 +84,10 @@ class InfiniteTensorDataset(IterableDataset):
 
         # Shuffle the indices for every full pass
         random.shuffle(self.indices)
+        # Other iterators over this dataset shuffle the indices again
+        indices = list(self.indices)
         while True:
-            for idx in self.indices:
+            for idx in indices:
                 yield tuple(t[idx] for t in self.tensors)
 
 
-- 
2.43.0


From 7c9f2042c41e0887ae2faa4e2a8eda94a9756311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:48 +0000
Subject: [PATCH 29/47] fix: keep the batch size of a loader moved to a device

---
 qadence/ml_tools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index 3209207..d24e2d6 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -145,7 +145,7 @@ def _(xs: dict, *args: Any, **kwargs: Any) -> dict:
 
 @data_to_device.register(DataLoader)
 def _(xs: DataLoader, *args: Any, **kwargs: Any) -> DataLoader:
-    return DataLoader(data_to_device(xs.dataset, *args, **kwargs))
+    return DataLoader(data_to_device(xs.dataset, *args, **kwargs), batch_size=xs.batch_size)
 
 
 @data_to_device.register(DictDataLoader)
-- 
2.43.0


From 95e75b9183fb4e41c68d4c728134785a24aff2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 30/47] fix: keep the value of a parameter when copying it

---
 qadence/parameters.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..94bb2d6 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -152,6 +152,16 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __getnewargs_ex__(self) -> tuple[tuple, dict]:
+        # `sympy` only keeps the truth value of assumptions. As there is one object for every
+        # name, a copy made from them would change the value of this very parameter.
+        args, assumptions = super().__getnewargs_ex__()
+        state = self.__getstate__()
+        return args, {k: state.get(k, v) for k, v in assumptions.items()}
+
+    def __getstate__(self) -> dict:
+        return {"trainable": self.trainable, "value": self.value, "is_time": self.is_time}
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
-- 
2.43.0


From b1405d6dc548f524c7eaff5ecc5d7153e75f679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:23 +0000
Subject: [PATCH 31/47] fix: tell model and optimizer checkpoints apart for all
 class names

---
 qadence/ml_tools/callbacks/saveload.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 57348d8..e30b2ee 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -19,9 +19,15 @@ logger = getLogger("ml_tools")
 PENDING_SUFFIX = ".pending"
 
 
+def _is_file_of_type(file: str, type: str) -> bool:
+    # The name of a class in the name of a checkpoint may contain any type.
+    match = re.match("(model|opt)_.*_ckpt_", file)
+    return match.group(1) == type if match else type in file
+
+
 def get_latest_checkpoint_name(folder: Path, type: str, device: str | torch.device = "cpu") -> Path:
     file = Path("")
-    files = [f for f in os.listdir(folder) if f.endswith(".pt") and type in f]
+    files = [f for f in os.listdir(folder) if f.endswith(".pt") and _is_file_of_type(f, type)]
     if len(files) == 0:
         logger.error(f"Directory {folder} does not contain any {type} checkpoints.")
         pass
-- 
2.43.0


From deef539f5535b54f0c04a78028b235b68a3a161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:23 +0000
Subject: [PATCH 32/47] fix: prefer a checkpoint to a legacy one of the same
 iteration

---
 qadence/ml_tools/callbacks/saveload.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index e30b2ee..d8458bb 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -38,7 +38,8 @@ def get_latest_checkpoint_name(folder: Path, type: str, device: str | torch.devi
         pattern = re.compile(f".*_(\d+)_device_{device}.pt$")
         legacy_pattern = re.compile(".*_(\d+).pt$")
         max_index = -1
-        for f in files:
+        # Of a legacy and a current checkpoint of the same iteration, the current one is newer.
+        for f in sorted(files):
             legacy_match = legacy_pattern.search(f)
             match = pattern.search(f)
             if match or legacy_match:
@@ -47,7 +48,7 @@ def get_latest_checkpoint_name(folder: Path, type: str, device: str | torch.devi
                     match = legacy_match
                 index_str = match.group(1).replace("_", "")  # type: ignore [union-attr]
                 index = int(index_str)
-                if index > max_index:
+                if index >= max_index:
                     max_index = index
                     file = Path(f)
     return Path(file)
-- 
2.43.0


From 52acf07630ceff74034ce93505f0c109c1edfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:20 +0000
Subject: [PATCH 33/47] fix: keep feature parameters untrainable when an
 observable's coefficient is deserialized

---
 qadence/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 98d2c20..2a05a4a 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -211,7 +211,9 @@ class ExpressionSerialization(SerializationModel):
             expr = eval(self.d["expression"])
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
-                    s.value = float(self.d["symbols"][s.name]["value"])
+                    symbol = self.d["symbols"][s.name]
+                    s.value = float(symbol["value"])
+                    s.trainable = symbol["trainable"] == "True"
             self.value = expr
         else:
             raise ValueError(f"Invalid expression: {self.d['expression']}")
-- 
2.43.0


From d03789934a59e0aae63d290c1f5b9ebc42a62907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:45 +0000
Subject: [PATCH 34/47] fix: keep the tags of inner blocks when deserializing

---
 qadence/blocks/composite.py | 12 ++----------
 qadence/blocks/primitive.py | 11 ++---------
 qadence/circuit.py          | 11 ++---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..3f03f16 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -124,18 +124,10 @@ class CompositeBlock(AbstractBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> CompositeBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
         from qadence.blocks.utils import _construct, tag
+        from qadence.serialization import deserialize
 
-        blocks = [
-            (
-                getattr(operations, b["type"])._from_dict(b)
-                if hasattr(operations, b["type"])
-                else getattr(qadenceblocks, b["type"])._from_dict(b)
-            )
-            for b in d["blocks"]
-        ]
+        blocks = tuple(deserialize(b) for b in d["blocks"])
         block = _construct(cls, blocks)  # type: ignore[arg-type]
         if d["tag"] is not None:
             tag(block, d["tag"])
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 023bfc3..a828dd0 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -333,17 +333,10 @@ class ScaleBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ScaleBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
+        from qadence.serialization import deserialize
 
         expr = ParamMap._from_dict(d["parameters"])
-        block: AbstractBlock
-        if hasattr(operations, d["block"]["type"]):
-            block = getattr(operations, d["block"]["type"])._from_dict(d["block"])
-
-        else:
-            block = getattr(qadenceblocks, d["block"]["type"])._from_dict(d["block"])
-        return cls(block, expr)  # type: ignore[arg-type]
+        return cls(deserialize(d["block"]), expr)  # type: ignore[arg-type]
 
 
 class TimeEvolutionBlock(ParametricBlock):
diff --git a/qadence/circuit.py b/qadence/circuit.py
index fd266fe..57455a9 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -176,18 +176,11 @@ class QuantumCircuit:
 
     @classmethod
     def _from_dict(cls, d: dict) -> QuantumCircuit:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
-        RootBlock = (
-            getattr(operations, d["block"]["type"])
-            if hasattr(operations, d["block"]["type"])
-            else getattr(qadenceblocks, d["block"]["type"])
-        )
+        from qadence.serialization import deserialize
 
         return QuantumCircuit(
             Register._from_dict(d["register"]),
-            RootBlock._from_dict(d["block"]),
+            deserialize(d["block"]),  # type: ignore[arg-type]
         )
 
     @classmethod
-- 
2.43.0


From 9a8ac82e8beb426536a2fe10db68c6979efdf901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 35/47] fix: detach the parameters of serialized models from
 the live ones

---
 qadence/ml_tools/models.py | 4 +++-
 qadence/model.py           | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index f1c9a99..1427258 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -492,7 +492,9 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
+                    conv_pd[n] = nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index dd49d79..be4f9fa 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import os
 from collections import Counter, OrderedDict
+from copy import deepcopy
 from dataclasses import asdict
 from logging import getLogger
 from pathlib import Path
@@ -492,7 +493,7 @@ class QuantumModel(nn.Module):
             }
             param_dict_conv = {}
             if save_params:
-                param_dict_conv = {name: param for name, param in self._params.items()}
+                param_dict_conv = {name: deepcopy(param) for name, param in self._params.items()}
             d = {self.__class__.__name__: d, "param_dict": param_dict_conv}
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
@@ -534,7 +535,9 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
+                    conv_pd[n] = torch.nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
-- 
2.43.0


From c79c6e448ae2b46f8c1bdfa562c1085053277a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 36/47] fix: expand nested observables into their terms for
 shot-based estimates

---
 qadence/blocks/utils.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index aa52e73..f1b7a4f 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import typing
 from enum import Enum
 from itertools import chain as _flatten
+from itertools import product
 from logging import getLogger
 from typing import Generator, List, Type, TypeVar, Union, get_args
 
@@ -428,6 +429,30 @@ def has_duplicate_vparams(block: AbstractBlock) -> bool:
     return len(set(trainables)) != len(trainables)
 
 
+def _is_nested(block: AbstractBlock) -> bool:
+    """Whether the block is a product that has sums, scaled blocks or products as factors."""
+    return isinstance(block, (KronBlock, ChainBlock)) and any(
+        isinstance(b, (AddBlock, ScaleBlock, KronBlock, ChainBlock)) for b in block.blocks
+    )
+
+
+def _multiply_out(block: KronBlock | ChainBlock) -> list[tuple[AbstractBlock, Basic]]:
+    """Expand a product of (sums of) scaled or nested products into its scaled terms."""
+    terms: list[tuple[AbstractBlock, Basic]] = []
+    for factors in product(*(unroll_block_with_scaling(b) for b in block.blocks)):
+        blocks: list[AbstractBlock] = []
+        scale = Parameter(1.0)
+        for factor, factor_scale in factors:
+            blocks += (
+                factor.blocks if isinstance(factor, (KronBlock, ChainBlock)) else (factor,)
+            )
+            scale = scale * factor_scale
+        qubits = [q for b in blocks for q in b.qubit_support]
+        Block = ChainBlock if len(set(qubits)) < len(qubits) else type(block)
+        terms.append((_construct(Block, tuple(blocks)), scale))
+    return terms
+
+
 @typing.no_type_check
 def unroll_block_with_scaling(
     block: AbstractBlock, block_list: list[AbstractBlock] = None
@@ -476,12 +501,12 @@ def unroll_block_with_scaling(
         scaled_block = block.block
         scale: Expr = block.scale
 
-        if not isinstance(scaled_block, AddBlock):
+        if not isinstance(scaled_block, (AddBlock, ScaleBlock)) and not _is_nested(scaled_block):
             block_list.append((block.block, scale))
 
         else:
             idx = len(block_list)
-            block_list = _add_block(scaled_block, block_list)
+            block_list = unroll_block_with_scaling(scaled_block, block_list)
             # param_id = block.param_id
 
             for i in range(idx, len(block_list)):
@@ -520,6 +545,9 @@ and NOT this way:
 
         return block_list
 
+    elif _is_nested(block):
+        return block_list + _multiply_out(block)
+
     elif (
         isinstance(block, KronBlock)
         or isinstance(block, ChainBlock)
-- 
2.43.0


From c9a341e3beada86c0d0db03722045bc1021474b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 37/47] fix: reassign the generators of Hamiltonian evolutions
 along with their support

---
 qadence/transpile/invert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..65d14bc 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -19,7 +19,13 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
         block (AbstractBlock): _description_
         qubit_map (dict[int, int]): _description_
     """
-    from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
+    from qadence.blocks import (
+        CompositeBlock,
+        ControlBlock,
+        ParametricControlBlock,
+        ScaleBlock,
+        TimeEvolutionBlock,
+    )
     from qadence.blocks.utils import _construct
 
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
@@ -43,6 +49,8 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
             blk._qubit_support = qs  # type: ignore[attr-defined]
+            if isinstance(block, TimeEvolutionBlock) and isinstance(block.generator, AbstractBlock):
+                blk.generator = reassign(block.generator, qubit_map)  # type: ignore[attr-defined]
             return blk
 
     return _block_with_updated_support(block)
-- 
2.43.0


From c9dd4213b130990c9d1446fecd38733aee7e4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 38/47] fix: give overlap circuits made of bra and ket the
 parameter values of both

---
 qadence/overlap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..2a33be2 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -398,6 +398,11 @@ class Overlap(QuantumModel):
         elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
                 param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                if self.method not in [OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON]:
+                    # the circuits of these methods contain both bra and ket
+                    param_values = dict.fromkeys(
+                        ("bra", "ket"), {**bra_param_values, **ket_param_values}
+                    )
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
 
-- 
2.43.0


From 9afb3dd41746e2aeffc58b8d6e9b7c1c1fa9cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 39/47] fix: compare a single set of samples with every set of
 a batch in the Jensen-Shannon overlap

---
 qadence/overlap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 2a33be2..96e507d 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -181,6 +181,9 @@ def overlap_jensen_shannon(bras: list[Counter], kets: list[Counter]) -> Tensor:
     Returns:
         Tensor: overlap tensor containing values of overlap of each bra with each ket
     """
+    # a circuit without feature parameters is sampled once for the whole batch
+    bras = bras * len(kets) if len(bras) == 1 else bras
+    kets = kets * len(bras) if len(kets) == 1 else kets
     return 1 - torch.tensor([js_divergence(p, q) for p, q in zip(bras, kets)])
 
 
-- 
2.43.0


From fb518d1fa43f6c8edb79fee54749bb1e8824697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 40/47] fix: keep the noise of one pulser evaluation out of the
 backend's configuration

Noisy simulations stored their noise in the configuration of the backend, so
later noiseless evaluations (of every model sharing it) were noisy or failed.
---
 qadence/backends/pulser/backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index ed43ee8..06e239f 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from collections import Counter
 from collections.abc import Iterable
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from logging import getLogger
 from typing import Any
 
@@ -254,11 +254,12 @@ class Backend(BackendInterface):
                 "noise": noise.protocol[-1].lower(),
                 noise.protocol[-1].lower() + "_rate": noise_prob,
             }
-            self.config.sim_config = SimConfig(**sim_config)
+            # the noise of this call must not stay in the configuration for later calls
+            config = replace(self.config, sim_config=SimConfig(**sim_config))
 
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
-                sim_result: CoherentResults = simulate_sequence(sequence, self.config, state)
+                sim_result: CoherentResults = simulate_sequence(sequence, config, state)
                 final_state = sim_result.get_final_state().data.to_array()
                 batched_dm[i] = np.flip(final_state)
             return torch.from_numpy(batched_dm)
-- 
2.43.0


From 91db05dd0877f3736595003fbc641f129f27b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 41/47] fix: evaluate complex observables on the pulser backend
 with the conjugate on the bra

The expectation was that of the transposed observable, so terms with an odd
number of Pauli Y had the wrong sign.
---
 qadence/backends/pulser/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/convert_ops.py b/qadence/backends/pulser/convert_ops.py
index 0e71e24..7b8099e 100644
--- a/qadence/backends/pulser/convert_ops.py
+++ b/qadence/backends/pulser/convert_ops.py
@@ -50,6 +50,6 @@ class PulserObservable(Module):
                 self.block, values, qubit_support=qubit_support, endianness=endianness  # type: ignore [arg-type]  # noqa
             ).squeeze(0)
         if noise is None:  # Compute expectations for state vector.
-            return torch.sum(torch.matmul(state, block_mat) * state.conj(), dim=1)
+            return torch.sum(torch.matmul(state.conj(), block_mat) * state, dim=1)
         else:  # Compute expectations for density matrices.
             return torch.trace(torch.matmul(block_mat, state))
-- 
2.43.0


From d90c812a977eb3fc083e3e992d29a4c41bc01212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 42/47] fix: keep the noise given to one expectation call out
 of later calls

The noise replaced that of the model for all later expectation and sample calls.
---
 qadence/model.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index be4f9fa..c14ec03 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -438,8 +438,6 @@ class QuantumModel(nn.Module):
             measurement = self._measurement
         if noise is None:
             noise = self._noise
-        else:
-            self._noise = noise
         if mitigation is None:
             mitigation = self._mitigation
         return self.backend.expectation(
-- 
2.43.0


From 343b77c326fff006abd1e267c2246365bd03a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 43/47] fix: apply the addressing pattern and the initial state
 in noisy pulser simulations

---
 qadence/backends/pulser/backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index 06e239f..bf0098d 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -243,6 +243,8 @@ class Backend(BackendInterface):
         if not isinstance(noise.protocol[-1], NoiseProtocol.ANALOG):
             raise TypeError("Noise must be of type `NoiseProtocol.ANALOG`.")
         noise_probs = noise.options[-1].get("noise_probs", None)
+        state = state if state is None else _convert_init_state(state)
+        pattern = circuit.original.register.device_specs.pattern
 
         def run_noisy_sim(noise_prob: float) -> Tensor:
             batched_dm = np.zeros(
@@ -259,6 +261,8 @@ class Backend(BackendInterface):
 
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
+                if pattern is not None:
+                    add_addressing_pattern(sequence, pattern)
                 sim_result: CoherentResults = simulate_sequence(sequence, config, state)
                 final_state = sim_result.get_final_state().data.to_array()
                 batched_dm[i] = np.flip(final_state)
-- 
2.43.0


From 95f4684665c0e2e469c7cd238b796e3e159a25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 44/47] fix: keep the sign of the phase of analog rotations on
 the pulser backend

---
 qadence/backends/pulser/pulses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 976ee8c..aa53eb0 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -235,7 +235,8 @@ def analog_rot_pulse(
         min_duration=channel.min_duration,
     )
 
-    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
+    # the Y term changes sign in the basis used by Pulser
+    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=-phase)
 
 
 def entangle_pulse(
-- 
2.43.0


From 5eca29029fb4c7c24f82aa37467f57703c329928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 45/47] fix: rotate by negative angles on the pulser backend

---
 qadence/backends/pulser/pulses.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index aa53eb0..5c71d9c 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -6,6 +6,7 @@ from typing import Union
 
 import numpy as np
 from pulser.channels.base_channel import Channel
+from pulser.parametrized.decorators import parametrize
 from pulser.parametrized.variable import Variable, VariableItem
 from pulser.pulse import Pulse
 from pulser.sequence.sequence import Sequence
@@ -264,6 +265,11 @@ def entangle_pulse(
     return Pulse(amplitude=amplitude, detuning=detuning, phase=PI / 2)
 
 
+@parametrize
+def _rotation_sign(angle: float) -> float:
+    return -1.0 if angle < 0 else 1.0
+
+
 def digital_xy_rot_pulse(
     angle: TVar | float, phase: float, channel: Channel, config: Configuration | None = None
 ) -> Pulse:
@@ -280,6 +286,9 @@ def digital_xy_rot_pulse(
         min_duration=channel.min_duration,
     )
 
+    # a rotation by a negative angle is the rotation about the opposite axis
+    phase = phase + PI / 2 * (1 - _rotation_sign(angle))
+
     return Pulse.ConstantDetuning(amplitude=amplitude_wf, detuning=0, phase=phase)
 
 
@@ -302,12 +311,12 @@ def digital_z_rot_pulse(
         min_duration=channel.min_duration,
     )
 
-    # create detuning waveform
+    # create detuning waveform, a negative angle takes a negative detuning
     det_wf = SquareWaveform.from_duration(
         duration=duration,  # type: ignore
         max_amp=max_det,  # type: ignore[arg-type]
         duration_steps=channel.clock_period,  # type: ignore[attr-defined]
         min_duration=channel.min_duration,
-    )
+    ) * _rotation_sign(angle)
 
     return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
-- 
2.43.0


From 4572678b9078f6ca4c88f676b9c66bc652fc01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 46/47] fix: evaluate Hamiltonian evolutions within chains of
 single-qubit operations

---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..faba7f5 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -74,7 +74,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, U, TimeEvolutionBlock)) for b in block])
     )
 
 
-- 
2.43.0


From 1bfc1cb4f61727ddaed394cbb33d127a896520a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 47/47] fix: distinguish the fixed parameters -1 and -2 by name

---
 qadence/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 94bb2d6..002adfd 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -299,8 +299,8 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            # not the hash of the value, which is the same for -1 and -2
+            name = "fix_" + str(sympy_to_numeric(expr)).replace(".", "_")
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0

