From 0a7706619ad05c2f4138dcda20f5ef755a5af112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 01/47] fix: check key and assignment of a consumer for each
 message, not once per chunk

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..d2db586 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -417,11 +417,7 @@ pub mod producer {
                 .await?;
                 return Ok(());
             } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                consumer.get_messages()
             }
         } else {
             responsing_err(
@@ -582,7 +578,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !has_key {
+                    } else if !consumer.get_identification().has_key() {
                         warn!(
                             target: logs::targets::PRODUCER,
                             "consumer {} tries to send data, but it doesn't have a key", uuid
@@ -597,7 +593,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !assigned
+                    } else if !consumer.get_identification().assigned()
                         && options.producer_indentification_strategy
                             != ProducerIdentificationStrategy::Ignore
                     {
-- 
2.43.0


From 9a109e58e591480a6f029dd76b4c0ddf1d8fb525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 02/47] fix: ignore messages of a consumer after it has been
 discredited within the same chunk

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index d2db586..f0b8dc7 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -440,6 +440,10 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer was discredited by one of previous messages
+                return Ok(());
+            }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
-- 
2.43.0


From f6d7b7ac7c73ab0894fa44cfe8c292994bbceb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 03/47] fix: failure of the application's error handler doesn't
 stop the producer

---
 .../render/producer/rust/render_mod.rs        | 80 ++++++++++---------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index f0b8dc7..bcad86b 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -315,6 +315,23 @@ pub mod producer {
         Ok(())
     }
 
+    async fn emit_error<E: server::Error, C: server::Control<E>>(
+        error: ProducerError<E>,
+        uuid: Option<Uuid>,
+        context: &mut Context,
+        identification: Option<&identification::Identification>,
+        control: &Control<E, C>,
+    ) {
+        if let Err(err) =
+            emitters::error::emit::<E, C>(error, uuid, context, identification, control).await
+        {
+            warn!(
+                target: logs::targets::PRODUCER,
+                "fail call error handler; error: {:?}", err,
+            );
+        }
+    }
+
     async fn disconnect<E: server::Error, C: server::Control<E>>(
         uuid: Uuid,
         consumer: &mut Consumer,
@@ -360,7 +377,7 @@ pub mod producer {
             || options.consumer_error_handeling_strategy
                 == ConsumerErrorHandelingStrategy::EmitErrorAndDisconnect
         {
-            emitters::error::emit::<E, C>(
+            emit_error::<E, C>(
                 ProducerError::ResponsingError(err),
                 Some(uuid),
                 context,
@@ -369,8 +386,7 @@ pub mod producer {
                     .map(|consumer| consumer.get_identification()),
                 control,
             )
-            .await
-            .map_err(ProducerError::EventEmitterError)?;
+            .await;
         }
         Ok(())
     }
@@ -391,15 +407,14 @@ pub mod producer {
         let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
-                emitters::error::emit::<E, C>(
+                emit_error::<E, C>(
                     ProducerError::NotConfirmedConnection,
                     Some(uuid),
                     context,
                     Some(consumer.get_identification()),
                     control,
                 )
-                .await
-                .map_err(ProducerError::EventEmitterError)?;
+                .await;
                 return Ok(());
             }
             if consumer.get_identification().is_discredited() {
@@ -555,15 +570,14 @@ pub mod producer {
                     }
                     if !valid {
                         disconnect(uuid, consumer, control).await?;
-                        emitters::error::emit::<E, C>(
+                        emit_error::<E, C>(
                             ProducerError::NoConsumerKey(uuid),
                             Some(uuid),
                             context,
                             Some(consumer.get_identification()),
                             control,
                         )
-                        .await
-                        .map_err(ProducerError::EventEmitterError)?;
+                        .await;
                     }
                 },
                 message => {
@@ -573,30 +587,28 @@ pub mod producer {
                             "consumer {} tries to send data, but hash of consumer invalid", uuid
                         );
                         disconnect(uuid, consumer, control).await?;
-                        emitters::error::emit::<E, C>(
+                        emit_error::<E, C>(
                             ProducerError::NoConsumerKey(uuid),
                             Some(uuid),
                             context,
                             Some(consumer.get_identification()),
                             control,
                         )
-                        .await
-                        .map_err(ProducerError::EventEmitterError)?;
+                        .await;
                     } else if !consumer.get_identification().has_key() {
                         warn!(
                             target: logs::targets::PRODUCER,
                             "consumer {} tries to send data, but it doesn't have a key", uuid
                         );
                         disconnect(uuid, consumer, control).await?;
-                        emitters::error::emit::<E, C>(
+                        emit_error::<E, C>(
                             ProducerError::NoConsumerKey(uuid),
                             Some(uuid),
                             context,
                             Some(consumer.get_identification()),
                             control,
                         )
-                        .await
-                        .map_err(ProducerError::EventEmitterError)?;
+                        .await;
                     } else if !consumer.get_identification().assigned()
                         && options.producer_indentification_strategy
                             != ProducerIdentificationStrategy::Ignore
@@ -621,15 +633,14 @@ pub mod producer {
                             || options.producer_indentification_strategy
                                 == ProducerIdentificationStrategy::EmitErrorAndDisconnect
                         {
-                            emitters::error::emit::<E, C>(
+                            emit_error::<E, C>(
                                 ProducerError::NoAssignedConsumer(uuid),
                                 Some(uuid),
                                 context,
                                 Some(consumer.get_identification()),
                                 control,
                             )
-                            .await
-                            .map_err(ProducerError::EventEmitterError)?;
+                            .await;
                         }
                     } else {
                         let filter = identification::Filter::new(consumers);
@@ -719,7 +730,7 @@ pub mod producer {
                             )
                             .await?
                         }
-                        server::Events::Error(uuid, err) => emitters::error::emit::<E, C>(
+                        server::Events::Error(uuid, err) => emit_error::<E, C>(
                             ProducerError::ConsumerError(err),
                             uuid,
                             &mut context,
@@ -732,9 +743,8 @@ pub mod producer {
                             },
                             &control,
                         )
-                        .await
-                        .map_err(ProducerError::EventEmitterError)?,
-                        server::Events::ConnectionError(uuid, err) => emitters::error::emit::<E, C>(
+                        .await,
+                        server::Events::ConnectionError(uuid, err) => emit_error::<E, C>(
                             ProducerError::ConnectionError(err.to_string()),
                             uuid,
                             &mut context,
@@ -747,17 +757,15 @@ pub mod producer {
                             },
                             &control,
                         )
-                        .await
-                        .map_err(ProducerError::EventEmitterError)?,
-                        server::Events::ServerError(err) => emitters::error::emit::<E, C>(
+                        .await,
+                        server::Events::ServerError(err) => emit_error::<E, C>(
                             ProducerError::ServerError(err),
                             None,
                             &mut context,
                             None,
                             &control,
                         )
-                        .await
-                        .map_err(ProducerError::EventEmitterError)?,
+                        .await,
                     },
                     MergedChannel::Event(event) => {
                         let filter = identification::Filter::new(&consumers);
@@ -770,7 +778,7 @@ pub mod producer {
                             if let Some(consumer) = consumers.get_mut(&uuid) {
                                 consumer.get_mut_identification().key(key, overwrite);
                             } else {
-                                emitters::error::emit::<E, C>(
+                                emit_error::<E, C>(
                                     ProducerError::ConsumerError(format!(
                                         "Fail to find consumer {} to change self-key",
                                         uuid
@@ -780,15 +788,14 @@ pub mod producer {
                                     None,
                                     &control,
                                 )
-                                .await
-                                .map_err(ProducerError::EventEmitterError)?;
+                                .await;
                             }
                         }
                         identification::IdentificationChannel::Assigned(uuid, key, overwrite) => {
                             if let Some(consumer) = consumers.get_mut(&uuid) {
                                 consumer.get_mut_identification().assign(key, overwrite);
                             } else {
-                                emitters::error::emit::<E, C>(
+                                emit_error::<E, C>(
                                     ProducerError::ConsumerError(format!(
                                         "Fail to find consumer {} to change assigned-key",
                                         uuid
@@ -798,8 +805,7 @@ pub mod producer {
                                     None,
                                     &control,
                                 )
-                                .await
-                                .map_err(ProducerError::EventEmitterError)?;
+                                .await;
                             }
                         }
                     },
@@ -815,7 +821,7 @@ pub mod producer {
                                 )
                                 .await?;
                         } else {
-                            emitters::error::emit::<E, C>(
+                            emit_error::<E, C>(
                                 ProducerError::ConsumerError(format!(
                                     "Fail to find consumer {} to confirm connection",
                                     uuid
@@ -825,8 +831,7 @@ pub mod producer {
                                 None,
                                 &control,
                             )
-                            .await
-                            .map_err(ProducerError::EventEmitterError)?;
+                            .await;
                         }
                     }
                 }
@@ -971,7 +976,7 @@ pub mod producer {
             target: logs::targets::PRODUCER,
             "handeling beacon [[struct]] error: {}", err
         );
-        emitters::error::emit::<E, C>(
+        emit_error::<E, C>(
             ProducerError::BeaconEmitterError(err),
             Some(uuid),
             context,
@@ -979,7 +984,6 @@ pub mod producer {
             control,
         )
         .await
-        .map_err(ProducerError::EventEmitterError)?
     }
 },"#;
     pub const EVENT: &str = r#"Event::[[name]](event) => {
-- 
2.43.0


From 08f614e7f921dcdf46649b2a7d209163290e8ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 04/47] fix: failure to confirm or to disconnect one consumer
 doesn't stop the producer

---
 .../workflow/render/producer/rust/render_mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index bcad86b..c857f5e 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -341,7 +341,12 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            warn!(
+                target: logs::targets::PRODUCER,
+                "fail to disconnect consumer {}; error: {}", uuid, err
+            );
+        }
         Ok(())
     }
 
@@ -812,14 +817,20 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
-                                .await?;
+                                .await
+                            {
+                                warn!(
+                                    target: logs::targets::PRODUCER,
+                                    "fail to send connection confirmation to {}; error: {}", uuid, err
+                                );
+                            }
                         } else {
                             emit_error::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From 3c5b2f87f620dc2e8278f0dd9c5192341dc05fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 05/47] fix: requested changes of identification are applied
 before the next message or event

---
 .../render/producer/rust/render_mod.rs        | 111 ++++++++++++------
 1 file changed, 75 insertions(+), 36 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index c857f5e..6385de7 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -396,6 +396,66 @@ pub mod producer {
         Ok(())
     }
 
+    async fn change_identification<E: server::Error, C: server::Control<E>>(
+        msg: identification::IdentificationChannel,
+        consumers: &'_ mut HashMap<Uuid, Consumer>,
+        context: &mut Context,
+        control: &Control<E, C>,
+    ) {
+        match msg {
+            identification::IdentificationChannel::Key(uuid, key, overwrite) => {
+                if let Some(consumer) = consumers.get_mut(&uuid) {
+                    consumer.get_mut_identification().key(key, overwrite);
+                } else {
+                    emit_error::<E, C>(
+                        ProducerError::ConsumerError(format!(
+                            "Fail to find consumer {} to change self-key",
+                            uuid
+                        )),
+                        Some(uuid),
+                        context,
+                        None,
+                        control,
+                    )
+                    .await;
+                }
+            }
+            identification::IdentificationChannel::Assigned(uuid, key, overwrite) => {
+                if let Some(consumer) = consumers.get_mut(&uuid) {
+                    consumer.get_mut_identification().assign(key, overwrite);
+                } else {
+                    emit_error::<E, C>(
+                        ProducerError::ConsumerError(format!(
+                            "Fail to find consumer {} to change assigned-key",
+                            uuid
+                        )),
+                        Some(uuid),
+                        context,
+                        None,
+                        control,
+                    )
+                    .await;
+                }
+            }
+        }
+    }
+
+    // Applies all changes of identification, which are requested already
+    async fn flush_identification<E: server::Error, C: server::Control<E>>(
+        rx_ident_change: &mut UnboundedReceiver<identification::IdentificationChannel>,
+        consumers: &'_ mut HashMap<Uuid, Consumer>,
+        context: &mut Context,
+        control: &Control<E, C>,
+    ) {
+        while let Some(msg) = select! {
+            biased;
+            msg = rx_ident_change.recv() => msg,
+            _ = std::future::ready(()) => None,
+        } {
+            change_identification(msg, consumers, context, control).await;
+        }
+    }
+
     async fn process_received_data<E: server::Error, C: server::Control<E>>(
         uuid: Uuid,
         buffer: Vec<u8>,
@@ -403,6 +463,7 @@ pub mod producer {
         context: &mut Context,
         control: &Control<E, C>,
         options: &Options,
+        rx_ident_change: &mut UnboundedReceiver<identification::IdentificationChannel>,
     ) -> Result<(), ProducerError<E>> {
         trace!(
             target: logs::targets::PRODUCER,
@@ -455,6 +516,7 @@ pub mod producer {
             return Ok(());
         }
         for (message, header) in messages.iter() {
+            flush_identification(rx_ident_change, consumers, context, control).await;
             let consumer = if let Some(consumer) = consumers.get_mut(&uuid) {
                 consumer
             } else {
@@ -697,6 +759,15 @@ pub mod producer {
                 },
                 _ = cancel.cancelled() => None
             } {
+                if !matches!(event, MergedChannel::Identification(_)) {
+                    flush_identification(
+                        &mut rx_ident_change,
+                        &mut consumers,
+                        &mut context,
+                        &control,
+                    )
+                    .await;
+                }
                 match event {
                     MergedChannel::ServerEvents(event) => match event {
                         server::Events::Ready => emitters::ready::emit(&mut context, &control)
@@ -732,6 +803,7 @@ pub mod producer {
                                 &mut context,
                                 &control,
                                 options,
+                                &mut rx_ident_change,
                             )
                             .await?
                         }
@@ -778,42 +850,9 @@ pub mod producer {
     [[events]]
                         }
                     }
-                    MergedChannel::Identification(msg) => match msg {
-                        identification::IdentificationChannel::Key(uuid, key, overwrite) => {
-                            if let Some(consumer) = consumers.get_mut(&uuid) {
-                                consumer.get_mut_identification().key(key, overwrite);
-                            } else {
-                                emit_error::<E, C>(
-                                    ProducerError::ConsumerError(format!(
-                                        "Fail to find consumer {} to change self-key",
-                                        uuid
-                                    )),
-                                    Some(uuid),
-                                    &mut context,
-                                    None,
-                                    &control,
-                                )
-                                .await;
-                            }
-                        }
-                        identification::IdentificationChannel::Assigned(uuid, key, overwrite) => {
-                            if let Some(consumer) = consumers.get_mut(&uuid) {
-                                consumer.get_mut_identification().assign(key, overwrite);
-                            } else {
-                                emit_error::<E, C>(
-                                    ProducerError::ConsumerError(format!(
-                                        "Fail to find consumer {} to change assigned-key",
-                                        uuid
-                                    )),
-                                    Some(uuid),
-                                    &mut context,
-                                    None,
-                                    &control,
-                                )
-                                .await;
-                            }
-                        }
-                    },
+                    MergedChannel::Identification(msg) => {
+                        change_identification(msg, &mut consumers, &mut context, &control).await
+                    }
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-- 
2.43.0


From ae4575dc824f9bc4759d4c9f1f89d3cc9109b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 06/47] fix: rust protocol: malformed property or array item is
 an error, not a panic

---
 .../render/rust/static/protocol.decode.rs     |  4 +--
 .../render/rust/static/protocol.storage.rs    | 25 +++++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..0306a0c 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..cac2443 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -49,6 +49,9 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if buf.len() - pos < sizes::U16_LEN {
+            return Err("Fail to read property id: buffer is too small".to_string());
+        }
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
@@ -60,12 +63,18 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U8_LEN {
+            return Err("Fail to read rank of property length: buffer is too small".to_string());
+        }
         let prop_body_len_rank = cursor.get_u8();
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
         match prop_body_len_rank {
             8 => {
+                if cursor.remaining() < sizes::U8_LEN {
+                    return Err("Fail to read length of property: buffer is too small".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u8()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U8_LEN;
@@ -74,6 +83,9 @@ impl Storage {
                 }
             }
             16 => {
+                if cursor.remaining() < sizes::U16_LEN {
+                    return Err("Fail to read length of property: buffer is too small".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u16_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U16_LEN;
@@ -82,6 +94,9 @@ impl Storage {
                 }
             }
             32 => {
+                if cursor.remaining() < sizes::U32_LEN {
+                    return Err("Fail to read length of property: buffer is too small".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u32_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U32_LEN;
@@ -90,6 +105,9 @@ impl Storage {
                 }
             }
             64 => {
+                if cursor.remaining() < sizes::U64_LEN {
+                    return Err("Fail to read length of property: buffer is too small".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u64_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U64_LEN;
@@ -101,6 +119,13 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        if cursor.remaining() < prop_body_len_usize {
+            return Err(format!(
+                "Fail to read body of property: expecting {} bytes, but only {} are available",
+                prop_body_len_usize,
+                cursor.remaining()
+            ));
+        }
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From 3ad8ff1b1fa2004b7250a0ebeb2de013bd21493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 07/47] fix: rust protocol: absurd length of a package or many
 packages in one chunk don't panic the reader

---
 .../render/rust/static/protocol.buffer.rs     | 50 ++++++++-----------
 .../render/rust/static/protocol.packing.rs    |  3 ++
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..57b80fd 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -61,37 +61,31 @@ where
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
         self.buffer.append(&mut buf.clone());
-        if !has_buffer_header(&self.buffer) {
-            return Ok(());
-        }
-        // Get header
-        let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Header(e));
-            }
-        };
-        if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
-        }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Parsing(e));
-            }
-        };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
+        while has_buffer_header(&self.buffer) {
+            // Get header
+            let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
+                Ok(v) => v,
+                Err(e) => {
+                    // Borders of packages are unknown since this point
+                    self.buffer.clear();
+                    return Err(ReadError::Header(e));
                 }
+            };
+            if !has_buffer_body(&self.buffer, &header) {
+                return Ok(());
             }
-            Err(e) => Err(e),
+            let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
+                Ok(v) => v,
+                Err(e) => {
+                    self.buffer.clear();
+                    return Err(ReadError::Parsing(e));
+                }
+            };
+            self.buffer = rest;
+            let msg = self.get_message(&header, &body)?;
+            self.queue.push(IncomeMessage { header, msg });
         }
+        Ok(())
     }
 
     #[allow(clippy::should_implement_trait)]
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..ee80eb9 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -87,6 +87,9 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
             return Err(format!("{}", e));
         }
     };
+    if len_usize.checked_add(MSG_HEADER_LEN).is_none() {
+        return Err(format!("Length of package is too big: {} bytes.", len));
+    }
     Ok(PackageHeader {
         id,
         signature,
-- 
2.43.0


From b449aa8ccd993003371784ff7ef48f990b69063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 08/47] fix: unreadable message doesn't suppress valid messages
 received before and after it

---
 .../render/producer/rust/render_mod.rs        | 92 ++++++++++++-------
 1 file changed, 60 insertions(+), 32 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 6385de7..0699ef2 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -21,7 +21,7 @@ pub mod responses;
 pub mod scope;
 
 use super::context;
-use consumer::{identification, Consumer};
+use consumer::{identification, Consumer, ConsumerError as ConsumerReadingError};
 use context::Context;
 use clibri::{env::logs, server};
 use log::{debug, error, trace, warn};
@@ -456,7 +456,9 @@ pub mod producer {
         }
     }
 
-    async fn process_received_data<E: server::Error, C: server::Control<E>>(
+    // Handles messages, which are readable before the end of data or before the first unreadable
+    // message; in second case returns an error of reading
+    async fn process_messages<E: server::Error, C: server::Control<E>>(
         uuid: Uuid,
         buffer: Vec<u8>,
         consumers: &'_ mut HashMap<Uuid, Consumer>,
@@ -464,13 +466,8 @@ pub mod producer {
         control: &Control<E, C>,
         options: &Options,
         rx_ident_change: &mut UnboundedReceiver<identification::IdentificationChannel>,
-    ) -> Result<(), ProducerError<E>> {
-        trace!(
-            target: logs::targets::PRODUCER,
-            "new chunk of data from {} has been gotten",
-            uuid,
-        );
-        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
+    ) -> Result<Option<ConsumerReadingError>, ProducerError<E>> {
+        let (messages, failure) = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emit_error::<E, C>(
@@ -481,25 +478,14 @@ pub mod producer {
                     control,
                 )
                 .await;
-                return Ok(());
+                return Ok(None);
             }
             if consumer.get_identification().is_discredited() {
                 // Consumer is discredited do nothing with it
-                return Ok(());
-            } else if let Err(err) = consumer.chunk(&buffer) {
-                responsing_err(
-                    format!("fail to read chunk of data; error: {}", err),
-                    uuid,
-                    context,
-                    control,
-                    options,
-                    &mut Some(consumer),
-                )
-                .await?;
-                return Ok(());
-            } else {
-                consumer.get_messages()
+                return Ok(None);
             }
+            let failure = consumer.chunk(&buffer).err();
+            (consumer.get_messages(), failure)
         } else {
             responsing_err(
                 String::from("fail to find consumer; message wouldn't be processed"),
@@ -510,21 +496,18 @@ pub mod producer {
                 &mut None,
             )
             .await?;
-            return Ok(());
+            return Ok(None);
         };
-        if messages.is_empty() {
-            return Ok(());
-        }
         for (message, header) in messages.iter() {
             flush_identification(rx_ident_change, consumers, context, control).await;
             let consumer = if let Some(consumer) = consumers.get_mut(&uuid) {
                 consumer
             } else {
-                return Ok(());
+                return Ok(None);
             };
             if consumer.get_identification().is_discredited() {
                 // Consumer was discredited by one of previous messages
-                return Ok(());
+                return Ok(None);
             }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
@@ -536,7 +519,7 @@ pub mod producer {
                     let consumer = if let Some(consumer) = consumers.get_mut(&uuid) {
                         consumer
                     } else {
-                        return Ok(());
+                        return Ok(None);
                     };
                     let assigned_uuid = consumer.key(request, true);
                     if let Err(err) = match (protocol::[[indentification_self_response]] {
@@ -714,7 +697,7 @@ pub mod producer {
                         let consumer = if let Some(consumer) = consumers.get(&uuid) {
                             consumer
                         } else {
-                            return Ok(());
+                            return Ok(None);
                         };
                         match message {
 [[requests]]
@@ -725,6 +708,51 @@ pub mod producer {
                 }
             }
         }
+        Ok(failure)
+    }
+
+    async fn process_received_data<E: server::Error, C: server::Control<E>>(
+        uuid: Uuid,
+        mut buffer: Vec<u8>,
+        consumers: &'_ mut HashMap<Uuid, Consumer>,
+        context: &mut Context,
+        control: &Control<E, C>,
+        options: &Options,
+        rx_ident_change: &mut UnboundedReceiver<identification::IdentificationChannel>,
+    ) -> Result<(), ProducerError<E>> {
+        trace!(
+            target: logs::targets::PRODUCER,
+            "new chunk of data from {} has been gotten",
+            uuid,
+        );
+        while let Some(err) = process_messages(
+            uuid,
+            std::mem::take(&mut buffer),
+            consumers,
+            context,
+            control,
+            options,
+            rx_ident_change,
+        )
+        .await?
+        {
+            flush_identification(rx_ident_change, consumers, context, control).await;
+            let mut consumer = consumers.get_mut(&uuid);
+            if let Some(consumer) = consumer.as_ref() {
+                if consumer.get_identification().is_discredited() {
+                    return Ok(());
+                }
+            }
+            responsing_err(
+                format!("fail to read chunk of data; error: {}", err),
+                uuid,
+                context,
+                control,
+                options,
+                &mut consumer,
+            )
+            .await?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 85f25c77e24ab1977d00953931768cb579fc19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 09/47] fix: rust protocol: enum option with an empty value can
 be decoded

---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..df46284 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -304,7 +304,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From b49f54846ccbe21847e6fcd8ac7c9e5166867390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 10/47] fix: shutdown is completed and acknowledged even if a
 requester is gone or there are several of them

---
 .../workflow/render/producer/rust/render_mod.rs  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 0699ef2..b1c347a 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -995,9 +995,12 @@ pub mod producer {
                 "shutdown has been requested"
             );
             if let Some(tx_response) = tx_response {
-                tx_response.send(()).map_err(|_| {
-                    ProducerError::ChannelError(String::from("Fail to send shutdown response"))
-                })?;
+                if tx_response.send(()).is_err() {
+                    warn!(
+                        target: logs::targets::PRODUCER,
+                        "fail to send shutdown response; requester is gone"
+                    );
+                }
             }
             drop(server);
             debug!(
@@ -1005,6 +1008,13 @@ pub mod producer {
                 "shutdown response has been sent"
             );
         }
+        // Answer to those who requested shutdown, while it was in progress already
+        rx_shutdown.close();
+        while let Some(tx_response) = rx_shutdown.recv().await {
+            if let Some(tx_response) = tx_response {
+                let _ = tx_response.send(());
+            }
+        }
         emitters::shutdown::emit(&mut context, &control)
             .await
             .map_err(ProducerError::EventEmitterError)?;
-- 
2.43.0


From 47e1f38ece9d60c54ab26753e0922a64b56470ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 11/47] fix: beacon is confirmed also if its handler failed

---
 .../render/producer/rust/render_beacon_emitter.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs b/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs
index 69a1087..d97f475 100644
--- a/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs
+++ b/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs
@@ -20,17 +20,18 @@ pub async fn emit<E: server::Error, C: server::Control<E>>(
     control: &Control<E, C>,
 ) -> Result<(), EmitterError> {
     let mut scope: Scope<'_, E, C> = Scope::new(context, control, identification, filter);
-    beacons::[[beacon_mod]]::emit(beacon, &mut scope)
-        .await
-        .map_err(EmitterError::Emitting)?;
-    let mut response = protocol::InternalServiceGroup::BeaconConfirmation { error: None };
+    let result = beacons::[[beacon_mod]]::emit(beacon, &mut scope).await;
+    let mut response = protocol::InternalServiceGroup::BeaconConfirmation {
+        error: result.as_ref().err().cloned(),
+    };
     let buffer = pack(&sequence, &identification.uuid(), &mut response)?;
-    control
+    let confirmed = control
         .send(buffer, Some(identification.uuid()))
         .await
-        .map_err(|e: ProducerError<E>| EmitterError::Emitting(e.to_string()))?;
+        .map_err(|e: ProducerError<E>| EmitterError::Emitting(e.to_string()));
     scope.call().await;
-    Ok(())
+    result.map_err(EmitterError::Emitting)?;
+    confirmed
 }"#;
 }
 
-- 
2.43.0


From 7550e53875f3e6e85eee6dd8dd4613000e577075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 12/47] fix: broadcasts and deferred work of a handled request
 don't depend on delivery of its answer

---
 .../render/producer/rust/render_request_handler.rs   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..305ff81 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -31,15 +31,15 @@ pub async fn process<E: server::Error, C: server::Control<E>>(
             },
             Err(mut error) => pack(&sequence, &uuid, &mut error)?,
         };
-    control
+    let answered = control
         .send(buffer, Some(uuid))
         .await
-        .map_err(|e: ProducerError<E>| HandlerError::Processing(e.to_string()))?;
+        .map_err(|e: ProducerError<E>| HandlerError::Processing(e.to_string()));
     for msg in broadcasting.iter_mut() {
         broadcast::<E, C>(msg, control).await?;
     }
     scope.call().await;
-    Ok(())
+    answered
 }    
 "#;
     pub const CONCLUSION_WITH_BROADCAST: &str = r#"responses::[[response_mod]]::Response::[[conclusion]]((
@@ -74,12 +74,12 @@ pub async fn process<E: server::Error, C: server::Control<E>>(
         Ok(mut response) => pack(&sequence, &uuid, &mut response)?,
         Err(mut error) => pack(&sequence, &uuid, &mut error)?,
     };
-    control
+    let answered = control
         .send(buffer, Some(uuid))
         .await
-        .map_err(|e: ProducerError<E>| HandlerError::Processing(e.to_string()))?;
+        .map_err(|e: ProducerError<E>| HandlerError::Processing(e.to_string()));
     scope.call().await;
-    Ok(())
+    answered
 }
 "#;
 }
-- 
2.43.0


From 373208e12b0ae073f7b0674c7c58bffd91d6a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 13/47] fix: rust consumer: caller which doesn't wait for an
 answer anymore doesn't end the session

---
 .../render/consumer/rust/render_consumer.rs   | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..60f3d75 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,12 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for response anymore; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
@@ -472,11 +472,12 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                if tx_response.send(sequence).is_err() {
+                    debug!(
+                        target: logs::targets::CONSUMER,
+                        "nobody waits for sequence anymore"
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -616,9 +617,12 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    if tx_response.send(uuid).is_err() {
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for uuid anymore"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From afbcd59d5efe79e6edd5049ae0efcd0a68f24df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 14/47] fix: rust consumer: broadcast (sequence 0) isn't taken
 as response for handshake

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 60f3d75..72cb2f2 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -641,8 +641,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -679,9 +679,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From fe5dbcf3885f17749ca5fb368b392465e8ffb9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 15/47] fix: rust consumer: unreadable message doesn't suppress
 valid messages received before and after it

---
 .../workflow/render/consumer/rust/render_consumer.rs  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 72cb2f2..bd99384 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -521,8 +521,8 @@ where
                                 "has been received {} bytes",
                                 income.len()
                             );
-                            match buffer.chunk(&income, None) {
-                                Ok(()) => {
+                            let mut failure = buffer.chunk(&income, None).err();
+                            loop {
                                     while let Some(msg) = buffer.next() {
                                         if let protocol::AvailableMessages::InternalServiceGroup(
                                             protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
@@ -569,13 +569,16 @@ where
                                             }
                                         }
                                     }
-                                }
-                                Err(err) => {
+                                if let Some(err) = failure.take() {
                                     shortcuts::emit_error::<E>(
                                         ConsumerError::BufferError(format!("{:?}", err)),
                                         &tx_consumer_event,
                                     )
                                     .await;
+                                    // Continue from the next message
+                                    failure = buffer.chunk(&vec![], None).err();
+                                } else {
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From ec2f20d6578553cdcd155ede15826f567039d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 16/47] fix: rust consumer: timeout covers the whole call,
 beacons included

---
 .../render/consumer/rust/render_controller.rs | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_controller.rs b/cli/src/workflow/render/consumer/rust/render_controller.rs
index bb21849..94ed198 100644
--- a/cli/src/workflow/render/consumer/rust/render_controller.rs
+++ b/cli/src/workflow/render/consumer/rust/render_controller.rs
@@ -38,17 +38,18 @@ impl<E: client::Error> Consumer<E> {
     &self,
     mut beacon: protocol::[[request]],
 ) -> Result<(), ConsumerError<E>> {
-    let sequence = self.api.sequence().await?;
-    let uuid = self.api.uuid_as_string().await?;
-    let message = self
-        .api
-        .request(
-            sequence,
-            &beacon
-                .pack(sequence, uuid)
-                .map_err(ConsumerError::Protocol)?,
-    )
-    .await?;
+    let response = async {
+        let sequence = self.api.sequence().await?;
+        let uuid = self.api.uuid_as_string().await?;
+        let package = beacon
+            .pack(sequence, uuid)
+            .map_err(ConsumerError::Protocol)?;
+        self.api.request(sequence, &package).await
+    };
+    let message = select! {
+        message = response => message,
+        _ = sleep(Duration::from_millis(self.timeout)) => Err(ConsumerError::Timeout)
+    }?;
     match message {        
         protocol::AvailableMessages::InternalServiceGroup(protocol::InternalServiceGroup::AvailableMessages::BeaconConfirmation(msg)) =>
             if let Some(err) = msg.error {
@@ -65,18 +66,16 @@ impl<E: client::Error> Consumer<E> {
     &mut self,
     mut request: protocol::[[request]],
 ) -> Result<[[response]], ConsumerError<E>> {
-    let sequence = self.api.sequence().await?;
-    let uuid = self.api.uuid_as_string().await?;
-    let package = request
-        .pack(sequence, uuid)
-        .map_err(ConsumerError::Protocol)?;
+    let response = async {
+        let sequence = self.api.sequence().await?;
+        let uuid = self.api.uuid_as_string().await?;
+        let package = request
+            .pack(sequence, uuid)
+            .map_err(ConsumerError::Protocol)?;
+        self.api.request(sequence, &package).await
+    };
     let message = select! {
-        message = self
-        .api
-        .request(
-            sequence,
-            &package,
-        ) => message,
+        message = response => message,
         _ = sleep(Duration::from_millis(self.timeout)) => Err(ConsumerError::Timeout)
     }?;
     match message {[[responses]]
-- 
2.43.0


From c04ab19045f2e84674ed1f2fa550b59b737d294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 17/47] fix: rust consumer: connected isn't reported after
 disconnected

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index bd99384..a620ea2 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -506,9 +506,10 @@ where
     let mut buffer = protocol::Buffer::new();
     let mut uuid: Option<Uuid> = None;
     while let Some(msg) = select! {
-        msg = rx_client_event.recv() => msg.map(MergedClientChannel::Client),
-        msg = rx_auth.recv() => msg.map(MergedClientChannel::Auth),
+        biased;
         _ = cancel.cancelled() => None,
+        msg = rx_auth.recv() => msg.map(MergedClientChannel::Auth),
+        msg = rx_client_event.recv() => msg.map(MergedClientChannel::Client),
     } {
         match msg {
             MergedClientChannel::Client(msg) => {
-- 
2.43.0


From 15984c5cac710443ed67a90b468476e5e327744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 18/47] fix: rust consumer: refuse of hash is reported also if
 connection is closed at the same time

---
 .../render/consumer/rust/render_consumer.rs   | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index a620ea2..f916b8f 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -29,7 +29,7 @@ use tokio::{
         mpsc::{channel, unbounded_channel, Receiver, Sender, UnboundedReceiver, UnboundedSender},
         oneshot,
     },
-    task::spawn,
+    task::{spawn, JoinHandle},
     time::{sleep, Duration},
 };
 use tokio_util::sync::CancellationToken;
@@ -505,6 +505,7 @@ where
 {
     let mut buffer = protocol::Buffer::new();
     let mut uuid: Option<Uuid> = None;
+    let mut auth_task: Option<JoinHandle<()>> = None;
     while let Some(msg) = select! {
         biased;
         _ = cancel.cancelled() => None,
@@ -535,7 +536,7 @@ where
                                             let api_auth = api.clone();
                                             let options_auth = options.clone();
                                             let tx_auth_auth = tx_auth.clone();
-                                            spawn(async move {
+                                            auth_task = Some(spawn(async move {
                                                 if let Err(err) = tx_auth_auth
                                                     .send(Auth::SetUuid(auth(api_auth, options_auth).await))
                                                 {
@@ -544,7 +545,7 @@ where
                                                         "fail to send response for consumer auth: {}", err
                                                     );
                                                 }
-                                            });
+                                            }));
                                             continue;
                                         }
                                         match api.accept(msg.header.sequence, msg.msg.clone()).await
@@ -631,6 +632,24 @@ where
             },
         }
     }
+    // Session is finished; result of handshake could be still not handled
+    cancel.cancel();
+    if let Some(auth_task) = auth_task.take() {
+        if let Err(err) = auth_task.await {
+            error!(
+                target: logs::targets::CONSUMER,
+                "fail to finish consumer auth: {}", err
+            );
+        }
+    }
+    rx_auth.close();
+    while let Some(msg) = rx_auth.recv().await {
+        if let Auth::SetUuid(Err(ConsumerError::HashCheck(err))) = msg {
+            shortcuts::emit_error::<E>(ConsumerError::HashCheck(err.clone()), &tx_consumer_event)
+                .await;
+            return Err(ConsumerError::HashCheck(err));
+        }
+    }
     Ok(())
 }
 
-- 
2.43.0


From 0c866f42b6c0d4bf4fc5ed2dcd54160c1170de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 19/47] fix: rust consumer: several requests of shutdown are
 completed and acknowledged

---
 .../render/consumer/rust/render_consumer.rs   | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index f916b8f..bc134c8 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -26,7 +26,7 @@ use std::str::FromStr;
 use tokio::{
     join, select,
     sync::{
-        mpsc::{channel, unbounded_channel, Receiver, Sender, UnboundedReceiver, UnboundedSender},
+        mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
         oneshot,
     },
     task::{spawn, JoinHandle},
@@ -196,9 +196,9 @@ where
         UnboundedReceiver<Emitter<E>>,
     ) = unbounded_channel();
     let (tx_shutdown, mut rx_shutdown): (
-        Sender<oneshot::Sender<()>>,
-        Receiver<oneshot::Sender<()>>,
-    ) = channel(2);
+        UnboundedSender<oneshot::Sender<()>>,
+        UnboundedReceiver<oneshot::Sender<()>>,
+    ) = unbounded_channel();
     let api = Api::new(tx_client_api, tx_auth.clone());
     let consumer = Consumer::new(api.clone(), options.request_timeout);
     let client_control = client.control();
@@ -211,7 +211,7 @@ where
     let cancel = api.get_shutdown_token();
     let cancel_shutdown_getter = api.get_shutdown_token();
     debug!(target: logs::targets::CONSUMER, "listener task is started");
-    let (rx_consumer_getter, context, mut shutdown, client) = join!(
+    let (rx_consumer_getter, context, (mut shutdown, mut rx_shutdown), client) = join!(
         async move {
             debug!(target: logs::targets::CONSUMER, "getter subtask is started");
             while let Some(tx_response) = select! {
@@ -245,7 +245,7 @@ where
             context
         },
         async move {
-            if let Some(tx_response) = select! {
+            let shutdown = if let Some(tx_response) = select! {
                 tx_response = rx_shutdown.recv() => tx_response,
                 _ = cancel_shutdown_getter.cancelled() => None,
             } {
@@ -259,7 +259,8 @@ where
                 Some(tx_response)
             } else {
                 None
-            }
+            };
+            (shutdown, rx_shutdown)
         },
         async move {
             debug!(
@@ -362,6 +363,16 @@ where
                 "fail to send shutdown response/confirmation"
             );
         }
+        // Shutdown could be requested several times
+        rx_shutdown.close();
+        while let Some(tx_response) = rx_shutdown.recv().await {
+            if tx_response.send(()).is_err() {
+                error!(
+                    target: logs::targets::CONSUMER,
+                    "fail to send shutdown response/confirmation"
+                );
+            }
+        }
         true
     } else {
         false
@@ -412,7 +423,7 @@ async fn client_api_task<E, Ctrl>(
     client: Ctrl,
     tx_auth: UnboundedSender<Auth<E>>,
     mut rx_client_api: UnboundedReceiver<Channel>,
-    tx_shutdown: Sender<oneshot::Sender<()>>,
+    tx_shutdown: UnboundedSender<oneshot::Sender<()>>,
     cancel: CancellationToken,
 ) -> Result<(), ConsumerError<E>>
 where
@@ -480,7 +491,7 @@ where
                 }
             }
             Channel::Shutdown(tx_response) => {
-                tx_shutdown.send(tx_response).await.map_err(|_| {
+                tx_shutdown.send(tx_response).map_err(|_| {
                     ConsumerError::APIChannel(String::from(
                         "Fail to send request for for Channel::Shutdown",
                     ))
-- 
2.43.0


From f9eeebeef949d8aaab750608a486dd9841d3c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 20/47] fix: rust consumer: reconnect also after a failed
 connection or a failed transport

---
 .../render/consumer/rust/render_consumer.rs   | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index bc134c8..59353ca 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -211,7 +211,7 @@ where
     let cancel = api.get_shutdown_token();
     let cancel_shutdown_getter = api.get_shutdown_token();
     debug!(target: logs::targets::CONSUMER, "listener task is started");
-    let (rx_consumer_getter, context, (mut shutdown, mut rx_shutdown), client) = join!(
+    let (rx_consumer_getter, context, (mut shutdown, mut rx_shutdown), (client, result)) = join!(
         async move {
             debug!(target: logs::targets::CONSUMER, "getter subtask is started");
             while let Some(tx_response) = select! {
@@ -268,7 +268,7 @@ where
                 "listener subtask is started"
             );
             let tx_auth_message = tx_auth.clone();
-            let (client_messages_task_res, client_api_task_res, client_res) = join!(
+            let (client_messages_task_res, client_api_task_res, (client, client_res)) = join!(
                 async {
                     debug!(
                         target: logs::targets::CONSUMER,
@@ -321,11 +321,7 @@ where
                     }
                     shortcuts::emit_event(&tx_consumer_event, Emitter::Disconnected).await;
                     cancel.cancel();
-                    if let Err(err) = result {
-                        Err(ConsumerError::Client(err))
-                    } else {
-                        Ok(client)
-                    }
+                    (client, result.map_err(ConsumerError::Client))
                 }
             );
             shortcuts::emit_event(
@@ -346,13 +342,14 @@ where
                 target: logs::targets::CONSUMER,
                 "listener subtask is finished"
             );
-            if let Err(err) = client_messages_task_res {
+            let result = if let Err(err) = client_messages_task_res {
                 Err(err)
             } else if let Err(err) = client_api_task_res {
                 Err(err)
             } else {
                 client_res
-            }
+            };
+            (client, result)
         }
     );
     debug!(target: logs::targets::CONSUMER, "listener task is finished");
@@ -377,9 +374,17 @@ where
     } else {
         false
     };
-    match client {
-        Ok(client) => Ok((client, context, rx_consumer_getter, shutdowned)),
-        Err(err) => Err(err),
+    match result {
+        // Next attempt cannot be successful
+        Err(ConsumerError::HashCheck(err)) => Err(ConsumerError::HashCheck(err)),
+        Err(err) => {
+            debug!(
+                target: logs::targets::CONSUMER,
+                "listener has been finished with error: {}", err
+            );
+            Ok((client, context, rx_consumer_getter, shutdowned))
+        }
+        Ok(()) => Ok((client, context, rx_consumer_getter, shutdowned)),
     }
 }
 
-- 
2.43.0


From 60ab55145b7cb799fe82f9a75567ce37e1166630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 21/47] fix: broadcasts of a request with single conclusion are
 rendered

---
 .../workflow/render/producer/rust/render_request_handler.rs   | 4 +++-
 .../workflow/render/producer/rust/render_request_response.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 305ff81..13d11b1 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,9 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request.actions.iter().any(|action| !action.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..711dd88 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,9 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request.actions.iter().any(|action| !action.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
-- 
2.43.0


From fedfccbe6b54a03b6b698113dd27c828188017d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 22/47] fix: failed generation ends with non-zero status

---
 cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 312214c..af90535 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -21,6 +21,7 @@ fn main() {
         std::process::exit(1);
     }
     if let Err(errors) = ctrl.actions() {
-        println!("{}", errors.join("\n"))
+        println!("{}", errors.join("\n"));
+        std::process::exit(1);
     }
 }
-- 
2.43.0


From a9c4550a8ee38f023a55f6efbcabe21e3569f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 23/47] fix: interrupted writing of a file neither destroys its
 content nor leaves a part of a new one

---
 cli/src/helpers/fs.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cli/src/helpers/fs.rs b/cli/src/helpers/fs.rs
index 8d5a706..0766266 100644
--- a/cli/src/helpers/fs.rs
+++ b/cli/src/helpers/fs.rs
@@ -1,7 +1,9 @@
 use std::{
+    ffi::OsString,
     fs::{
         OpenOptions,
         remove_file,
+        rename,
     },
     path::{
         PathBuf,
@@ -10,19 +12,26 @@ use std::{
 use std::io::prelude::*;
 
 pub fn write(filename: PathBuf, content: String, overwrite: bool) -> Result<(), String> {
-    if filename.exists() && overwrite {
-        if let Err(e) = remove_file(filename.clone()) {
-            return Err(e.to_string());
-        }
-    } else if filename.exists() && !overwrite {
+    if filename.exists() && !overwrite {
         return Err(format!("File {} exists", filename.to_string_lossy()));
     }
+    // Content becomes available under target name only as soon as it's written completely: an
+    // interrupted writing neither destroys previous content nor leaves a part of a new one
+    let mut draft_name = OsString::from(".");
+    draft_name.push(filename.file_name().unwrap_or_default());
+    draft_name.push(".draft");
+    let draft = filename.with_file_name(draft_name);
     match OpenOptions::new()
         .write(true)
         .create(true)
-        .open(filename.clone())
+        .truncate(true)
+        .open(draft.clone())
     {
-        Ok(mut file) => if let Err(e) = file.write_all(content.as_bytes()) {
+        Ok(mut file) => if let Err(e) = file
+            .write_all(content.as_bytes())
+            .and_then(|_| rename(draft.clone(), filename.clone()))
+        {
+            let _ = remove_file(draft);
             Err(e.to_string())
         } else {
             println!(
@@ -33,4 +42,4 @@ pub fn write(filename: PathBuf, content: String, overwrite: bool) -> Result<(),
         }
         Err(e) => Err(e.to_string())
     }
-} 
\ No newline at end of file
+}
-- 
2.43.0


From 501053be8d85f101abb9f26ef34a96e3a4fc4f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 24/47] fix: producer's shutdown is acknowledged to any number
 of concurrent requesters

---
 .../render/producer/rust/render_mod.rs        | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index b1c347a..2f9bded 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -31,7 +31,7 @@ use thiserror::Error;
 use tokio::{
     join, select,
     sync::{
-        mpsc::{channel, unbounded_channel, Receiver, Sender, UnboundedReceiver, UnboundedSender},
+        mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
         oneshot,
     },
 };
@@ -76,8 +76,8 @@ use std::marker::PhantomData;
 pub mod producer {
     use super::*;
 
-    type ShutdownSender = Sender<Option<oneshot::Sender<()>>>;
-    type ShutdownReceiver = Receiver<Option<oneshot::Sender<()>>>;
+    type ShutdownSender = UnboundedSender<Option<oneshot::Sender<()>>>;
+    type ShutdownReceiver = UnboundedReceiver<Option<oneshot::Sender<()>>>;
 
     enum Event {
 [[events_list]]
@@ -183,17 +183,14 @@ pub mod producer {
             if wait {
                 let (tx_resolver, rx_resolver): (oneshot::Sender<()>, oneshot::Receiver<()>) =
                     oneshot::channel();
-                self.tx_shutdown
-                    .send(Some(tx_resolver))
-                    .await
-                    .map_err(|_| {
-                        ProducerError::ChannelError(String::from("Fail to send shutdown command"))
-                    })?;
+                self.tx_shutdown.send(Some(tx_resolver)).map_err(|_| {
+                    ProducerError::ChannelError(String::from("Fail to send shutdown command"))
+                })?;
                 rx_resolver
                     .await
                     .map_err(|e| ProducerError::ChannelError(e.to_string()))?;
             } else {
-                self.tx_shutdown.send(None).await.map_err(|_| {
+                self.tx_shutdown.send(None).map_err(|_| {
                     ProducerError::ChannelError(String::from("Fail to send shutdown command"))
                 })?;
             }
@@ -932,7 +929,8 @@ pub mod producer {
     {
         let (tx_events, rx_events): (UnboundedSender<Event>, UnboundedReceiver<Event>) =
             unbounded_channel();
-        let (tx_shutdown, mut rx_shutdown): (ShutdownSender, ShutdownReceiver) = channel(2);
+        let (tx_shutdown, mut rx_shutdown): (ShutdownSender, ShutdownReceiver) =
+            unbounded_channel();
         let events = Events { tx_events };
         let shutdown = CancellationToken::new();
         let server_control = server.control();
-- 
2.43.0


From ef468a124aba5411b39a44355abc4857d97b2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 25/47] fix: cli: a word at the very end of a definition is
 consumed completely

---
 cli/src/protocol/parser.rs | 2 +-
 cli/src/workflow/parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..c9087ec 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -389,7 +389,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..5ce475a 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -281,7 +281,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From 63aa9308d0f9d077a9f95888597d4f4fd0922a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 26/47] fix: cli: a definition that ends before it's closed is
 an error

---
 cli/src/protocol/parser.rs | 5 +++++
 cli/src/protocol/store.rs  | 7 +++++++
 cli/src/workflow/parser.rs | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index c9087ec..1f684c3 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,11 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.is_opened() || !is_in(&expectation, &EExpectation::StructDef) {
+                                errs.push(String::from(
+                                    "Unexpected end of file: last definition isn't closed",
+                                ));
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..2ff56fa 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -377,6 +377,13 @@ impl Store {
         }
     }
 
+    pub fn is_opened(&self) -> bool {
+        self.c_group.is_some()
+            || self.c_struct.is_some()
+            || self.c_enum.is_some()
+            || self.c_field.is_some()
+    }
+
     pub fn close(&mut self) {
         if self.c_group.is_none() && self.c_struct.is_none() && self.c_enum.is_none() {
             stop!("No opened group or struct or enum");
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 5ce475a..4f495ab 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,11 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(self.err(
+                                    "Unexpected end of file: last definition isn't closed",
+                                ));
+                            }
                             break;
                         }
                         _ => 0,
-- 
2.43.0


From 69eff77fd8919a03b7a6750cbc2d2ba726231f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 27/47] fix: cli: comments of workflow can contain not ASCII
 chars

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 4f495ab..213a212 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -214,7 +214,7 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
-- 
2.43.0


From 58b1e2a5aee2d9923060e85ec05ac8aa35939c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 28/47] fix: cli: unknown working folder is a failure

---
 cli/src/ctrlargs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/ctrlargs.rs b/cli/src/ctrlargs.rs
index f61688a..d4551fe 100644
--- a/cli/src/ctrlargs.rs
+++ b/cli/src/ctrlargs.rs
@@ -66,7 +66,7 @@ impl CtrlArgs {
             Ok(pwd) => pwd,
             Err(e) => {
                 println!("Fail to detect pwd folder: {}", e);
-                std::process::exit(0);
+                std::process::exit(1);
             }
         };
         let mut args: Vec<String> = env::args().collect();
-- 
2.43.0


From 199c4f983cb0e0bf39b953a682f49ab095c11d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 29/47] fix: cli: a file that cannot be checked isn't taken for
 an absent one

---
 cli/src/helpers/fs.rs                         | 10 ++++-
 .../render/consumer/rust/render_broadcast.rs  |  2 +-
 .../render/consumer/rust/render_cargo.rs      |  2 +-
 .../render/consumer/rust/render_static.rs     |  2 +-
 .../consumer/typescript/render_package.rs     |  2 +-
 .../producer/rust/render_beacon_impl.rs       |  2 +-
 .../render/producer/rust/render_cargo.rs      |  2 +-
 .../render/producer/rust/render_event_impl.rs |  2 +-
 .../producer/rust/render_request_response.rs  |  2 +-
 .../render/producer/rust/render_static.rs     | 37 ++++++++-----------
 .../producer/typescript/render_beacon_impl.rs |  2 +-
 .../producer/typescript/render_event_impl.rs  |  2 +-
 .../producer/typescript/render_package.rs     |  2 +-
 .../typescript/render_request_response.rs     |  2 +-
 .../producer/typescript/render_static.rs      | 37 ++++++++-----------
 15 files changed, 53 insertions(+), 55 deletions(-)

diff --git a/cli/src/helpers/fs.rs b/cli/src/helpers/fs.rs
index 0766266..f999833 100644
--- a/cli/src/helpers/fs.rs
+++ b/cli/src/helpers/fs.rs
@@ -6,13 +6,21 @@ use std::{
         rename,
     },
     path::{
+        Path,
         PathBuf,
     }
 };
 use std::io::prelude::*;
 
+/// Unlike `Path::exists` doesn't take a failure of checking for an absence of a file
+pub fn exists(filename: &Path) -> Result<bool, String> {
+    filename
+        .try_exists()
+        .map_err(|e| format!("Fail to check {}; error: {}", filename.to_string_lossy(), e))
+}
+
 pub fn write(filename: PathBuf, content: String, overwrite: bool) -> Result<(), String> {
-    if filename.exists() && !overwrite {
+    if exists(&filename)? && !overwrite {
         return Err(format!("File {} exists", filename.to_string_lossy()));
     }
     // Content becomes available under target name only as soon as it's written completely: an
diff --git a/cli/src/workflow/render/consumer/rust/render_broadcast.rs b/cli/src/workflow/render/consumer/rust/render_broadcast.rs
index e92fcc4..e5f477b 100644
--- a/cli/src/workflow/render/consumer/rust/render_broadcast.rs
+++ b/cli/src/workflow/render/consumer/rust/render_broadcast.rs
@@ -32,7 +32,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, broadcast: &Broadcast) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, broadcast)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/consumer/rust/render_cargo.rs b/cli/src/workflow/render/consumer/rust/render_cargo.rs
index 59d8c46..db385ea 100644
--- a/cli/src/workflow/render/consumer/rust/render_cargo.rs
+++ b/cli/src/workflow/render/consumer/rust/render_cargo.rs
@@ -75,7 +75,7 @@ impl Render {
         let mut current = base.to_path_buf();
         while let Some(parent) = current.parent() {
             let target = current.join("Cargo.toml");
-            if target.exists() {
+            if helpers::fs::exists(&target)? {
                 return Ok(target);
             } else {
                 current = parent.to_path_buf();
diff --git a/cli/src/workflow/render/consumer/rust/render_static.rs b/cli/src/workflow/render/consumer/rust/render_static.rs
index b0cc91b..51df728 100644
--- a/cli/src/workflow/render/consumer/rust/render_static.rs
+++ b/cli/src/workflow/render/consumer/rust/render_static.rs
@@ -124,7 +124,7 @@ impl Render {
         content: String,
     ) -> Result<(), String> {
         let dest = self.get_dest_file(base, path, file_name)?;
-        if !dest.exists() {
+        if !helpers::fs::exists(&dest)? {
             helpers::fs::write(self.get_dest_file(base, path, file_name)?, content, true)?;
         } else {
             println!("[SKIP]: {}", dest.to_string_lossy());
diff --git a/cli/src/workflow/render/consumer/typescript/render_package.rs b/cli/src/workflow/render/consumer/typescript/render_package.rs
index ecb07eb..72e2a87 100644
--- a/cli/src/workflow/render/consumer/typescript/render_package.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_package.rs
@@ -75,7 +75,7 @@ impl Render {
         let mut current = base.to_path_buf();
         while let Some(parent) = current.parent() {
             let target = current.join("package.json");
-            if target.exists() {
+            if helpers::fs::exists(&target)? {
                 return Ok(target);
             } else {
                 current = parent.to_path_buf();
diff --git a/cli/src/workflow/render/producer/rust/render_beacon_impl.rs b/cli/src/workflow/render/producer/rust/render_beacon_impl.rs
index 011e143..57225ca 100644
--- a/cli/src/workflow/render/producer/rust/render_beacon_impl.rs
+++ b/cli/src/workflow/render/producer/rust/render_beacon_impl.rs
@@ -33,7 +33,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, beacon: &Broadcast) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, beacon)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/producer/rust/render_cargo.rs b/cli/src/workflow/render/producer/rust/render_cargo.rs
index 59d8c46..db385ea 100644
--- a/cli/src/workflow/render/producer/rust/render_cargo.rs
+++ b/cli/src/workflow/render/producer/rust/render_cargo.rs
@@ -75,7 +75,7 @@ impl Render {
         let mut current = base.to_path_buf();
         while let Some(parent) = current.parent() {
             let target = current.join("Cargo.toml");
-            if target.exists() {
+            if helpers::fs::exists(&target)? {
                 return Ok(target);
             } else {
                 current = parent.to_path_buf();
diff --git a/cli/src/workflow/render/producer/rust/render_event_impl.rs b/cli/src/workflow/render/producer/rust/render_event_impl.rs
index 0d7865b..496bd91 100644
--- a/cli/src/workflow/render/producer/rust/render_event_impl.rs
+++ b/cli/src/workflow/render/producer/rust/render_event_impl.rs
@@ -47,7 +47,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, event: &Event) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, event)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 711dd88..475eb45 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -53,7 +53,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/producer/rust/render_static.rs b/cli/src/workflow/render/producer/rust/render_static.rs
index 9f0cfb7..968be52 100644
--- a/cli/src/workflow/render/producer/rust/render_static.rs
+++ b/cli/src/workflow/render/producer/rust/render_static.rs
@@ -54,10 +54,9 @@ impl Render {
             Ok(reference) => reference == "connected",
             Err(_) => false,
         }) {
-            if !self
-                .get_dest_file(base, paths::events::dest, paths::events::connected)?
-                .exists()
-            {
+            if !helpers::fs::exists(
+                &self.get_dest_file(base, paths::events::dest, paths::events::connected)?,
+            )? {
                 helpers::fs::write(
                     self.get_dest_file(base, paths::events::dest, paths::events::connected)?,
                     include_str!("./static/events/connected.rs").to_owned(),
@@ -74,10 +73,9 @@ impl Render {
             Ok(reference) => reference == "disconnected",
             Err(_) => false,
         }) {
-            if !self
-                .get_dest_file(base, paths::events::dest, paths::events::disconnected)?
-                .exists()
-            {
+            if !helpers::fs::exists(
+                &self.get_dest_file(base, paths::events::dest, paths::events::disconnected)?,
+            )? {
                 helpers::fs::write(
                     self.get_dest_file(base, paths::events::dest, paths::events::disconnected)?,
                     include_str!("./static/events/disconnected.rs").to_owned(),
@@ -90,30 +88,27 @@ impl Render {
                 true,
             )?;
         }
-        if !self
-            .get_dest_file(base, paths::events::dest, paths::events::error)?
-            .exists()
-        {
+        if !helpers::fs::exists(
+            &self.get_dest_file(base, paths::events::dest, paths::events::error)?,
+        )? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::events::dest, paths::events::error)?,
                 include_str!("./static/events/error.rs").to_owned(),
                 true,
             )?;
         }
-        if !self
-            .get_dest_file(base, paths::events::dest, paths::events::ready)?
-            .exists()
-        {
+        if !helpers::fs::exists(
+            &self.get_dest_file(base, paths::events::dest, paths::events::ready)?,
+        )? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::events::dest, paths::events::ready)?,
                 include_str!("./static/events/ready.rs").to_owned(),
                 true,
             )?;
         }
-        if !self
-            .get_dest_file(base, paths::events::dest, paths::events::shutdown)?
-            .exists()
-        {
+        if !helpers::fs::exists(
+            &self.get_dest_file(base, paths::events::dest, paths::events::shutdown)?,
+        )? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::events::dest, paths::events::shutdown)?,
                 include_str!("./static/events/shutdown.rs").to_owned(),
@@ -162,7 +157,7 @@ impl Render {
         content: String,
     ) -> Result<(), String> {
         let dest = self.get_dest_file(base, path, file_name)?;
-        if !dest.exists() {
+        if !helpers::fs::exists(&dest)? {
             helpers::fs::write(self.get_dest_file(base, path, file_name)?, content, true)?;
         } else {
             println!("[SKIP]: {}", dest.to_string_lossy());
diff --git a/cli/src/workflow/render/producer/typescript/render_beacon_impl.rs b/cli/src/workflow/render/producer/typescript/render_beacon_impl.rs
index f58004c..db2da24 100644
--- a/cli/src/workflow/render/producer/typescript/render_beacon_impl.rs
+++ b/cli/src/workflow/render/producer/typescript/render_beacon_impl.rs
@@ -36,7 +36,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, beacon: &Broadcast) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, beacon)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/producer/typescript/render_event_impl.rs b/cli/src/workflow/render/producer/typescript/render_event_impl.rs
index d2d90bb..a408ffa 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_impl.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_impl.rs
@@ -84,7 +84,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, event: &Event) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, event)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/producer/typescript/render_package.rs b/cli/src/workflow/render/producer/typescript/render_package.rs
index ecb07eb..72e2a87 100644
--- a/cli/src/workflow/render/producer/typescript/render_package.rs
+++ b/cli/src/workflow/render/producer/typescript/render_package.rs
@@ -75,7 +75,7 @@ impl Render {
         let mut current = base.to_path_buf();
         while let Some(parent) = current.parent() {
             let target = current.join("package.json");
-            if target.exists() {
+            if helpers::fs::exists(&target)? {
                 return Ok(target);
             } else {
                 current = parent.to_path_buf();
diff --git a/cli/src/workflow/render/producer/typescript/render_request_response.rs b/cli/src/workflow/render/producer/typescript/render_request_response.rs
index bdc19b3..533cc8e 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_response.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_response.rs
@@ -37,7 +37,7 @@ impl Render {
 
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
-        if dest.exists() {
+        if helpers::fs::exists(&dest)? {
             println!("[SKIP]: {}", dest.to_string_lossy());
             return Ok(());
         }
diff --git a/cli/src/workflow/render/producer/typescript/render_static.rs b/cli/src/workflow/render/producer/typescript/render_static.rs
index c290e4f..1dce381 100644
--- a/cli/src/workflow/render/producer/typescript/render_static.rs
+++ b/cli/src/workflow/render/producer/typescript/render_static.rs
@@ -59,10 +59,9 @@ impl Render {
             Ok(reference) => reference == "connected",
             Err(_) => false,
         }) {
-            if !self
-                .get_dest_file(base, paths::events::dest, paths::events::connected)?
-                .exists()
-            {
+            if !helpers::fs::exists(
+                &self.get_dest_file(base, paths::events::dest, paths::events::connected)?,
+            )? {
                 helpers::fs::write(
                     self.get_dest_file(base, paths::events::dest, paths::events::connected)?,
                     include_str!("./static/events/connected.ts").to_owned(),
@@ -79,10 +78,9 @@ impl Render {
             Ok(reference) => reference == "disconnected",
             Err(_) => false,
         }) {
-            if !self
-                .get_dest_file(base, paths::events::dest, paths::events::disconnected)?
-                .exists()
-            {
+            if !helpers::fs::exists(
+                &self.get_dest_file(base, paths::events::dest, paths::events::disconnected)?,
+            )? {
                 helpers::fs::write(
                     self.get_dest_file(base, paths::events::dest, paths::events::disconnected)?,
                     include_str!("./static/events/disconnected.ts").to_owned(),
@@ -95,30 +93,27 @@ impl Render {
                 true,
             )?;
         }
-        if !self
-            .get_dest_file(base, paths::events::dest, paths::events::error)?
-            .exists()
-        {
+        if !helpers::fs::exists(
+            &self.get_dest_file(base, paths::events::dest, paths::events::error)?,
+        )? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::events::dest, paths::events::error)?,
                 include_str!("./static/events/error.ts").to_owned(),
                 true,
             )?;
         }
-        if !self
-            .get_dest_file(base, paths::events::dest, paths::events::ready)?
-            .exists()
-        {
+        if !helpers::fs::exists(
+            &self.get_dest_file(base, paths::events::dest, paths::events::ready)?,
+        )? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::events::dest, paths::events::ready)?,
                 include_str!("./static/events/ready.ts").to_owned(),
                 true,
             )?;
         }
-        if !self
-            .get_dest_file(base, paths::events::dest, paths::events::shutdown)?
-            .exists()
-        {
+        if !helpers::fs::exists(
+            &self.get_dest_file(base, paths::events::dest, paths::events::shutdown)?,
+        )? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::events::dest, paths::events::shutdown)?,
                 include_str!("./static/events/shutdown.ts").to_owned(),
@@ -162,7 +157,7 @@ impl Render {
         )?;
         let context_dest =
             self.get_dest_file(base, paths::context::dest, paths::context::module)?;
-        if !context_dest.exists() {
+        if !helpers::fs::exists(&context_dest)? {
             helpers::fs::write(
                 self.get_dest_file(base, paths::context::dest, paths::context::module)?,
                 include_str!("./static/context.ts").to_owned(),
-- 
2.43.0


From 6bf1dc7b06d24cfc2e1bc0cc6efa0d967d95bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 30/47] fix: typescript protocol: id of a field takes 2 bytes

---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..2b81038 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From f45ca7f4895ec6d78e15e382eadcf4e1f7307ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 31/47] fix: typescript protocol: leading U+FEFF is a part of a
 string

---
 .../render/typescript/static/protocol.primitives.string.utf8.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
index f4f167d..4253f92 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
@@ -17,7 +17,7 @@ export class StrUTF8 extends Primitive<string> {
     }
 
     public static decode(bytes: ArrayBufferLike): string | Error {
-        const decoder = new TextDecoder();
+        const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
         return decoder.decode(bytes);
     }
 
-- 
2.43.0


From 0c71e71cf0c5516f9c650896661c69bc6b54c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 32/47] fix: typescript protocol: unreadable message is
 consumed and reported as an error

---
 .../render/typescript/static/packing.ts       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..fad15d5 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -77,17 +77,15 @@ export abstract class BufferReader<T> {
 				if (body instanceof Error) {
 					errors.push(body);
 				} else {
-					const msg = this.getMessage(header, body);
+					const msg = this._getMessage(header, body);
 					if (msg instanceof Error) {
 						errors.push(msg);
 					} else {
 						this._queue.push(msg);
 					}
 				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
 			}
+			this._buffer = this._buffer.slice(MessageHeader.SIZE + header.len);
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
 	}
@@ -111,4 +109,17 @@ export abstract class BufferReader<T> {
 			? undefined
 			: this._queue.splice(0, 1)[0];
 	}
+
+	private _getMessage(
+		header: MessageHeader,
+		buffer: Buffer | ArrayBuffer | ArrayBufferLike
+	): T | Error {
+		try {
+			return this.getMessage(header, buffer);
+		} catch (err) {
+			return err instanceof Error
+				? err
+				: new Error(`Unknown error: ${err}`);
+		}
+	}
 }
-- 
2.43.0


From 6521b01a8fe6bc12517aff616a7eae76b28d7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 33/47] fix: typescript: unreadable or unknown message doesn't
 suppress valid messages of the same chunk

---
 .../workflow/render/consumer/typescript/render_consumer.rs | 3 +--
 cli/src/workflow/render/producer/typescript/render_mod.rs  | 7 +++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..bd034f1 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -244,7 +244,6 @@ export class Consumer {
         const errors: Error[] | undefined = this._buffer.chunk(buffer);
         if (errors instanceof Array) {
             this._logger.err(`Fail to process chunk of data due error(s):\n\t${errors.map(e => e.message).join('\n\t')}`)
-            return;
         }
         do {
             const msg: Protocol.IAvailableMessage<Protocol.IAvailableMessages> | undefined =  this._buffer.next();
@@ -261,7 +260,7 @@ export class Consumer {
     }
 }"#;
     pub const BROADCAST_CHECKS: &str = r#" else {
-    const id: number = msg.getRef<any>().getId();
+    const id: number = msg.header.id;
     switch (id) {[[cases]]
         default:
             this._logger.warn(`Has been gotten unexpected message ID=${id};`)
diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..ec0794b 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -239,9 +239,13 @@ export class Producer {
             );
         }
         const error = consumer.chunk(event.buffer);
+        this._onClientMessages(event, consumer);
         if (error instanceof Error) {
-            return this._receivingErr(error, event.uuid, consumer);
+            this._receivingErr(error, event.uuid, consumer);
         }
+    }
+
+    private _onClientMessages(event: IServerReceivedEvent, consumer: Consumer) {
         do {
             const message = consumer.message();
             if (message === undefined) {
@@ -441,7 +445,6 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
         } while (true);
     }
 
-- 
2.43.0


From 08ace01b5f653571e0b5bd5e8146debbdabde116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 34/47] fix: typescript producer: nothing of a consumer is
 handled after it has been disconnected by a producer

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index ec0794b..b937e91 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -247,6 +247,9 @@ export class Producer {
 
     private _onClientMessages(event: IServerReceivedEvent, consumer: Consumer) {
         do {
+            if (consumer.getIdentification().isDiscredited()) {
+                return;
+            }
             const message = consumer.message();
             if (message === undefined) {
                 return;
@@ -315,6 +318,7 @@ export class Producer {
                     );
                 });
                 if (hashErr !== undefined) {
+                    consumer.getIdentification().discredited();
                     this.disconnect(event.uuid).catch((err: Error) => {
                         this._logger.err(
                             `Fail to disconnect consumer ${event.uuid} because hash; error: ${err.message}`
@@ -335,6 +339,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.isHashAccepted()) {
+                consumer.getIdentification().discredited();
                 this.disconnect(event.uuid).catch((err: Error) => {
                     this._logger.err(
                         `Fail to disconnect consumer ${event.uuid} because not accepted hash; error: ${err.message}`
@@ -357,6 +362,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.getIdentification().hasKey()) {
+                consumer.getIdentification().discredited();
                 this.disconnect(event.uuid).catch((err: Error) => {
                     this._logger.err(
                         `Fail to disconnect consumer ${event.uuid} because key isn't setup; error: ${err.message}`
@@ -397,6 +403,7 @@ export class Producer {
                     this._options.producerIndentificationStrategy ===
                         ProducerIdentificationStrategy.EmitErrorAndDisconnect
                 ) {
+                    consumer.getIdentification().discredited();
                     this.disconnect(event.uuid).catch((err: Error) => {
                         this._logger.err(
                             `Fail to disconnect consumer ${event.uuid} because assigned key isn't setup; error: ${err.message}`
@@ -466,6 +473,7 @@ export class Producer {
                 ConsumerErrorHandelingStrategy.EmitErrorAndDisconnect
         ) {
             if (consumer !== undefined) {
+                consumer.getIdentification().discredited();
                 this.disconnect(uuid)
                     .then(() => {
                         this._logger.debug(
-- 
2.43.0


From 8f144c4c17a154de8cc8c0c0d982f36fc0d64fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 35/47] fix: typescript producer: check of assigned key looks
 at the key

---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From b4b4073395bfd87910d78e3bc5cc0c7467694732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 36/47] fix: typescript producer: beacon is confirmed also if
 its handler failed

---
 .../producer/typescript/render_beacon_emitter.rs  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs b/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs
index 46d927b..2186c09 100644
--- a/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs
@@ -20,21 +20,20 @@ export function handler(
 	const scope = new Scope(consumer, filter, context, producer);
 	return new Promise((resolve, reject) => {
 		emit(beacon, scope)
-			.then(() => {
+			.then(() => undefined)
+			.catch((err: Error) => err)
+			.then((error: Error | undefined) => {
 				const confirmation =
 					new Protocol.InternalServiceGroup.BeaconConfirmation({
-						error: undefined,
+						error: error === undefined ? undefined : error.message,
 					});
-				producer
+				return producer
 					.send(
 						consumer.uuid(),
 						confirmation.pack(sequence, consumer.uuid())
 					)
-					.then(() => {
-						scope.call();
-						resolve();
-					})
-					.catch(reject);
+					.finally(() => scope.call())
+					.then(() => (error === undefined ? resolve() : reject(error)));
 			})
 			.catch(reject);
 	});
-- 
2.43.0


From 865a391dc9077cc26c10f9f338164d545155f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 37/47] fix: typescript producer: broadcasts and deferred work
 of a handled request don't depend on delivery of its answer

---
 .../typescript/render_request_handler.rs      | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..b44e7dd 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -63,14 +63,16 @@ export function handler(
 				if (error instanceof Error) {
 					return reject(error);
 				}
-				producer
-					.send(consumer.uuid(), res.pack(sequence, consumer.uuid()))
-					.then(() => {
-						broadcastAll(producer, res.broadcasts()).then(() => {
-                            scope.call();
-                            resolve();
-                        }).catch(reject);
-					}).catch(reject);
+				const answered: Promise<void> = producer.send(
+					consumer.uuid(),
+					res.pack(sequence, consumer.uuid())
+				);
+				return answered
+					.catch(() => undefined)
+					.then(() => broadcastAll(producer, res.broadcasts()))
+					.then(() => scope.call())
+					.then(() => answered)
+					.then(resolve);
 			})
 			.catch(reject);
 	});
@@ -146,13 +148,10 @@ export function handler(
 	return new Promise((resolve, reject) => {
 		response(request, scope)
 			.then((res) => {
-				producer
+				return producer
 					.send(consumer.uuid(), res.pack(sequence, consumer.uuid()))
-					.then(() => {
-						scope.call();
-						resolve();
-					})
-					.catch(reject);
+					.finally(() => scope.call())
+					.then(resolve);
 			})
 			.catch(reject);
 	});
-- 
2.43.0


From 6c0dc5bbb8238e92e3ed8a84b5c98f47b5abd83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 38/47] fix: typescript producer: broadcasts of a request with
 single conclusion are rendered

---
 .../render/producer/typescript/render_request_handler.rs      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index b44e7dd..a0c5d4f 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -174,7 +174,9 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request.actions.iter().any(|action| !action.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace(
                 "[[required_broadcasts]]",
-- 
2.43.0


From e0f056d11a247cabb944ca95cf47d4db882ab14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 39/47] fix: typescript producer: the same broadcast can be
 bound with several conclusions; no required broadcasts

---
 .../typescript/render_event_emitter.rs        |  2 +-
 .../typescript/render_request_handler.rs      | 59 +++++++++++++------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
index 46864be..f58327b 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
@@ -175,7 +175,7 @@ impl Render {
         Ok(tools::inject_tabs(
             1,
             format!(
-                r#"static REQUIRED = [{}
+                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                 tools::inject_tabs(1, broadcasts),
             ),
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index a0c5d4f..800b660 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -79,11 +79,12 @@ export function handler(
 }"#;
     pub const BROADCAST_IMPL: &str = r#"[[name]](msg: Protocol.[[reference]]): Response {
     if (
-        self._response.getId() !==
-        Protocol.[[conclusion]].getId()
+        ![
+            [[conclusions]]
+        ].includes(self._response.getId())
     ) {
         throw new Error(
-            `Message "Protocol.[[reference]]" can be used only with "Protocol.[[conclusion]]"`
+            `Message "Protocol.[[reference]]" cannot be used with "Protocol.${self._response.getSignature()}"`
         );
     }
     if (
@@ -223,7 +224,7 @@ impl Render {
                     broadcasts = format!("{}\nProtocol.{},", broadcasts, broadcast.reference);
                 }
                 output = format!(
-                    r#"{}{}static REQUIRED_{} = [{}
+                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                     output,
                     "\n",
@@ -251,31 +252,51 @@ impl Render {
 
     fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
-            for broadcast in action.broadcast.iter() {
-                output = format!(
-                    "{}\n{}(msg: Protocol.{}): Response;",
-                    output,
-                    broadcast.reference.replace(".", ""),
-                    broadcast.reference,
-                );
-            }
+        for (reference, _) in self.get_broadcasts(request)?.iter() {
+            output = format!(
+                "{}\n{}(msg: Protocol.{}): Response;",
+                output,
+                reference.replace(".", ""),
+                reference,
+            );
         }
         Ok(tools::inject_tabs(2, output))
     }
 
     fn get_methods_implementations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
+        for (reference, responses) in self.get_broadcasts(request)?.iter() {
+            let conclusions = responses
+                .iter()
+                .map(|response| format!("Protocol.{}.getId(),", response))
+                .collect::<Vec<String>>()
+                .join("\n            ");
+            let mut out = templates::BROADCAST_IMPL.to_owned();
+            out = out.replace("[[name]]", &reference.replace(".", ""));
+            out = out.replace("[[reference]]", reference);
+            out = out.replace("[[conclusions]]", &conclusions);
+            output = format!("{}\n{}", output, out,);
+        }
+        Ok(tools::inject_tabs(3, output))
+    }
+
+    /// Each broadcast of a request once with responses it can be used with
+    fn get_broadcasts(&self, request: &Request) -> Result<Vec<(String, Vec<String>)>, String> {
+        let mut broadcasts: Vec<(String, Vec<String>)> = vec![];
         for action in request.actions.iter() {
+            let response = action.get_response()?;
             for broadcast in action.broadcast.iter() {
-                let mut out = templates::BROADCAST_IMPL.to_owned();
-                out = out.replace("[[name]]", &broadcast.reference.replace(".", ""));
-                out = out.replace("[[reference]]", &broadcast.reference);
-                out = out.replace("[[conclusion]]", &action.get_response()?);
-                output = format!("{}\n{}", output, out,);
+                let exist = broadcasts
+                    .iter()
+                    .position(|(reference, _)| *reference == broadcast.reference);
+                if let Some(index) = exist {
+                    broadcasts[index].1.push(response.clone());
+                } else {
+                    broadcasts.push((broadcast.reference.clone(), vec![response.clone()]));
+                }
             }
         }
-        Ok(tools::inject_tabs(3, output))
+        Ok(broadcasts)
     }
 
     fn get_broadcast_checks(&self, request: &Request) -> Result<String, String> {
-- 
2.43.0


From 0e6464e321679d35774bd4c0b54f4853996a2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 40/47] fix: typescript: connection is confirmed by producer
 before handshake (as rust producer and consumer do)

---
 .../render/consumer/typescript/render_consumer.rs     | 11 ++++++++++-
 .../workflow/render/producer/typescript/render_mod.rs | 10 ++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index bd034f1..8fa4c22 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -78,6 +78,7 @@ export class Consumer {
     private _uuid: string | undefined;
     private _key: Protocol.[[self_key_interface]];
     private _sequence: number = 1;
+    private _confirmed: boolean = false;
 
     public readonly connected: Subject<void> = new Subject(`connected`);
     public readonly ready: Subject<string> = new Subject(`ready`);
@@ -216,6 +217,11 @@ export class Consumer {
 
     private _onClientConnected() {
         this._logger.debug(`Client is connected`);
+        this.connected.emit();
+    }
+
+    private _onConnectionConfirmed() {
+        this._logger.debug(`Connection is confirmed`);
         this.assign(this._key).then((uuid: string) => {
             this._hash().then(() => {
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
@@ -226,12 +232,12 @@ export class Consumer {
         }).catch((err: Error) => {
             this._logger.err(`Default assign prodecure is failed: ${err.message}`);
         });
-        this.connected.emit();
     }
 
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._confirmed = false;
         this.disconnected.emit();
     }
 
@@ -254,6 +260,9 @@ export class Consumer {
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
                 pending(msg.msg);
+            } else if (msg.header.id === Protocol.InternalServiceGroup.ConnectConfirmationBeacon.getId()) {
+                !this._confirmed && this._onConnectionConfirmed();
+                this._confirmed = true;
             }[[broadcasts_checking]]
             
         } while (true);
diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index b937e91..eae9e45 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -182,6 +182,16 @@ export class Producer {
                 this
             )
         );
+        this.send(
+            uuid,
+            new Protocol.InternalServiceGroup.ConnectConfirmationBeacon(
+                {}
+            ).pack(0, uuid)
+        ).catch((err: Error) => {
+            this._logger.err(
+                `fail to send connection confirmation to ${uuid}; error: ${err.message}`
+            );
+        });
     }
 
     private _onClientDisconnected(uuid: string) {
-- 
2.43.0


From 605acf896b5f25a6d6b3b118220438d9fcbe10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 41/47] fix: typescript consumer: pending requests are rejected
 if a session ends; nothing of it is left for the next one

---
 .../consumer/typescript/render_beacon.rs      |  1 +
 .../consumer/typescript/render_consumer.rs    | 20 +++++++++++++++----
 .../consumer/typescript/render_request.rs     |  1 +
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..788c943 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -104,6 +104,7 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                     }
                 })
                 .catch((err: Error) => {
+                    this._state === ERequestState.Pending && (this._state = ERequestState.Ready);
                     reject(err);
                 });
         });
diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 8fa4c22..5cdc013 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -71,7 +71,10 @@ export class Consumer {
  
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
-    private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
+    private readonly _pending: Map<number, {
+        resolve: (response: Protocol.IAvailableMessages) => void;
+        reject: (error: Error) => void;
+    }> = new Map();
     private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
@@ -143,6 +146,7 @@ export class Consumer {
 		Object.keys(this._subscriptions).forEach((k) =>
 			this._subscriptions[k].destroy()
 		);
+        this._dropPending(`Consumer is destroyed`);
 		if (this._options.global) {
 			const global = globals();
 			global[Consumer.GUID] = undefined;
@@ -161,8 +165,8 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
-            this._pending.set(sequence, resolve);
+        return new Promise((resolve, reject) => {
+            this._pending.set(sequence, { resolve, reject });
         });
     }
 
@@ -238,9 +242,17 @@ export class Consumer {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
         this._confirmed = false;
+        this._buffer.destroy();
+        this._dropPending(`Client is disconnected`);
         this.disconnected.emit();
     }
 
+    private _dropPending(reason: string) {
+        const pending = Array.from(this._pending.values());
+        this._pending.clear();
+        pending.forEach((request) => request.reject(new Error(reason)));
+    }
+
     private _onClientError(error: Error) {
         this._logger.debug(`Client error: ${error.message}`);
         this.error.emit(new ExtError.ClientError(error.message));
@@ -259,7 +271,7 @@ export class Consumer {
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-                pending(msg.msg);
+                pending.resolve(msg.msg);
             } else if (msg.header.id === Protocol.InternalServiceGroup.ConnectConfirmationBeacon.getId()) {
                 !this._confirmed && this._onConnectionConfirmed();
                 this._confirmed = true;
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..3224960 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -54,6 +54,7 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                         return reject(new Error(`Unexpected state for request "[[reference]]".`));
                 }
             }).catch((err: Error) => {
+                this._state === ERequestState.Pending && (this._state = ERequestState.Ready);
                 reject(err);
             });
         });
-- 
2.43.0


From 459aae80337aeee7dfc76bc430c3c0bae4b6832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 42/47] fix: TypeScript consumer took what ended with a session
 for news of it

An answer of the handshake that arrived right before the end of its
session set the uuid of a consumer without a connection (which also kept
the next session from setting its own) and made it report ready after
disconnected.
---
 .../render/consumer/typescript/render_consumer.rs     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 5cdc013..bde7bfd 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -82,6 +82,7 @@ export class Consumer {
     private _key: Protocol.[[self_key_interface]];
     private _sequence: number = 1;
     private _confirmed: boolean = false;
+    private _session: number = 0;
 
     public readonly connected: Subject<void> = new Subject(`connected`);
     public readonly ready: Subject<string> = new Subject(`ready`);
@@ -146,6 +147,7 @@ export class Consumer {
 		Object.keys(this._subscriptions).forEach((k) =>
 			this._subscriptions[k].destroy()
 		);
+        this._session ++;
         this._dropPending(`Consumer is destroyed`);
 		if (this._options.global) {
 			const global = globals();
@@ -174,7 +176,11 @@ export class Consumer {
         return new Promise((resolve, reject) => {
             const request: Protocol.[[self_key]] = new Protocol.[[self_key]](key);
             const sequence: number = this.getSequence();
+            const session: number = this._session;
             this.request(request.pack(sequence), sequence).then((response: Protocol.IAvailableMessages) => {
+                if (session !== this._session) {
+                    return reject(new Error(this._logger.debug(`Session is over`)));
+                }
                 if (response.InternalServiceGroup === undefined) {
                     return reject(new Error(this._logger.err(`Expecting message from "InternalServiceGroup" group.`)));
                 }
@@ -226,8 +232,12 @@ export class Consumer {
 
     private _onConnectionConfirmed() {
         this._logger.debug(`Connection is confirmed`);
+        const session: number = this._session;
         this.assign(this._key).then((uuid: string) => {
             this._hash().then(() => {
+                if (session !== this._session) {
+                    return;
+                }
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
                 this.ready.emit(uuid);
             }).catch((err: Error) => {
@@ -241,6 +251,7 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._session ++;
         this._confirmed = false;
         this._buffer.destroy();
         this._dropPending(`Client is disconnected`);
-- 
2.43.0


From d6807e99f9d262a55de8ff1ded3256a80d11fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 43/47] fix: typescript protocol: entities of groups are
 referred by their paths, not before they are defined

---
 cli/src/protocol/render/typescript/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..9eb3883 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -416,14 +416,14 @@ impl TypescriptRender {
         body = format!("{}{}}});", body, self.spaces(level + 1));
         for field in &strct.fields {
             if let Some(ref_type_id) = field.ref_type_id {
-                if let Some(enums) = store.get_enum(ref_type_id) {
+                if store.get_enum(ref_type_id).is_some() {
                     // -------
                     body = format!(
                         "{}\n{}this._{} = new {}()",
                         body,
                         self.spaces(level + 1),
                         field.name,
-                        enums.name,
+                        store.get_enum_path(ref_type_id).join("."),
                     );
                     body = format!(
                         "{}\n{}{}this._{}.set(this.{});",
@@ -1056,7 +1056,7 @@ impl TypescriptRender {
         if let Some(entity_id) = field.ref_type_id {
             if let Some(strct) = store.get_struct(entity_id) {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: {} }},",
+                    "{}\n{}{{ prop: '{}', types: {{ validate: (value: any) => {}.getValidator({}).validate(value) }}, optional: {} }},",
                     body,
                     self.spaces(level),
                     field.name,
@@ -1075,7 +1075,7 @@ impl TypescriptRender {
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
                         if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, strct.name, if variant.repeated { "true" } else { "false" });
+                            body = format!("{}\n{}{{ prop: '{}', types: {{ validate: (value: any) => {}.getValidator({}).validate(value) }}, optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
                         } else {
                             stop!("Nested enums aren't supported.");
                         }
@@ -1159,7 +1159,7 @@ impl TypescriptRender {
                         store.get_struct_path(strct.id).join("."),
                         store.get_struct_path(strct.id).join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, strct.name, field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
                     body = format!(
                         "{}\n{}if (arr{} instanceof Error) {{",
                         body,
@@ -1344,7 +1344,8 @@ impl TypescriptRender {
             };
             if let Some(strct) = store.get_struct(entity_id) {
                 if field.repeated {
-                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, strct.name, strct.name, strct.name, field.id, field.name);
+                    let path = store.get_struct_path(strct.id).join(".");
+                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, path, path, path, field.id, field.name);
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
@@ -1431,7 +1432,10 @@ impl TypescriptRender {
                     if store.get_struct(ref_type_id).is_some() {
                         store.get_struct_path(ref_type_id).join(".")
                     } else if let Some(enums) = store.get_enum(ref_type_id) {
-                        format!("I{}", enums.name)
+                        let mut path = store.get_enum_path(ref_type_id);
+                        path.pop();
+                        path.push(format!("I{}", enums.name));
+                        path.join(".")
                     } else {
                         stop!(
                             "Fail to find a struct/enum id: {} for field {}",
-- 
2.43.0


From 4964c727129932fd5456c1f31f2fdfa65d4a350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 44/47] fix: typescript protocol: arrays of enums are encoded,
 decoded and validated

---
 cli/src/protocol/render/typescript/mod.rs     | 36 ++++++++--
 .../static/protocol.primitives.enum.ts        | 66 +++++++++++++++++++
 .../typescript/static/protocol.validator.ts   | 16 +++++
 3 files changed, 114 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 9eb3883..b234312 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -111,7 +111,7 @@ impl TypescriptRender {
             );
         }
 
-        for field in &strct.fields {
+        for field in strct.fields.iter().filter(|f| !f.repeated) {
             if let Some(ref_type_id) = field.ref_type_id {
                 if store.get_enum(ref_type_id).is_some() {
                     body = format!(
@@ -414,7 +414,7 @@ impl TypescriptRender {
             self.spaces(level + 2)
         );
         body = format!("{}{}}});", body, self.spaces(level + 1));
-        for field in &strct.fields {
+        for field in strct.fields.iter().filter(|f| !f.repeated) {
             if let Some(ref_type_id) = field.ref_type_id {
                 if store.get_enum(ref_type_id).is_some() {
                     // -------
@@ -1066,11 +1066,12 @@ impl TypescriptRender {
                 );
             } else if let Some(enums) = store.get_enum(entity_id) {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', optional: {}, options: [",
+                    "{}\n{}{{ prop: '{}', optional: {},{} options: [",
                     body,
                     self.spaces(level),
                     field.name,
-                    if field.optional { "true" } else { "false" }
+                    if field.optional { "true" } else { "false" },
+                    if field.repeated { " repeated: true," } else { "" }
                 );
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
@@ -1242,6 +1243,30 @@ impl TypescriptRender {
                     );
                     body = format!("{}\n{}}}", body, self.spaces(level));
                 }
+            } else if store.get_enum(entity_id).is_some() && field.repeated {
+                let type_str = self.get_type_ref(field, &mut store.clone());
+                body = format!("{}const arr{}: Array<{}> | Error = this.getValue<Array<{}>>(storage, {}, Protocol.Primitives.Enum.decodeArray.bind(null, () => new {}()));", self.spaces(level), field.name, type_str, type_str, field.id, store.get_enum_path(entity_id).join("."));
+                body = format!(
+                    "{}\n{}if (arr{} instanceof Error) {{",
+                    body,
+                    self.spaces(level),
+                    field.name
+                );
+                body = format!(
+                    "{}\n{}return arr{};",
+                    body,
+                    self.spaces(level + 1),
+                    field.name
+                );
+                body = format!("{}\n{}}} else {{", body, self.spaces(level));
+                body = format!(
+                    "{}\n{}this.{} = arr{};",
+                    body,
+                    self.spaces(level + 1),
+                    field.name,
+                    field.name
+                );
+                body = format!("{}\n{}}}", body, self.spaces(level));
             } else if let Some(_enums) = store.get_enum(entity_id) {
                 body = format!("{}this.{} = {{}};", self.spaces(level), field.name);
                 body = format!(
@@ -1349,6 +1374,9 @@ impl TypescriptRender {
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
+            } else if store.get_enum(entity_id).is_some() && field.repeated {
+                let type_str = self.get_type_ref(field, &mut store.clone());
+                body = format!("() => {{{} return this.getBufferFromBuf<Array<{}>>({}, Protocol.ESize.u64, Protocol.Primitives.Enum.encodeArray.bind(null, () => new {}()), this.{}); }}", optional, type_str, field.id, store.get_enum_path(entity_id).join("."), field.name);
             } else if store.get_enum(entity_id).is_some() {
                 body = format!("() => {{{} const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
             } else {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..8d7d9a7 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -5,6 +5,7 @@ import * as Primitives from "./protocol.primitives";
 
 import { ISigned } from "./protocol.primitives.interface";
 import { u16 } from "./protocol.primitives.u16";
+import { u64 } from "./protocol.primitives.u64";
 import { getPackingMiddleware, PackingMiddleware } from "./packing.middleware";
 
 // injectable
@@ -43,6 +44,71 @@ export class Option<T> {
 }
 
 export abstract class Enum<T> {
+	public static encodeArray<T>(
+		getter: () => Enum<T>,
+		items: T[]
+	): ArrayBufferLike | Error {
+		const buffers: ArrayBufferLike[] = [];
+		for (const item of items) {
+			const target: Enum<T> = getter();
+			const error: Error | undefined = target.set(item);
+			if (error instanceof Error) {
+				return error;
+			}
+			const body: ArrayBufferLike = target.encode();
+			const len: ArrayBufferLike | Error = u64.encode(
+				BigInt(body.byteLength)
+			);
+			if (len instanceof Error) {
+				return len;
+			}
+			buffers.push(len);
+			buffers.push(body);
+		}
+		return Tools.append(buffers);
+	}
+
+	public static decodeArray<T>(
+		getter: () => Enum<T>,
+		bytes: ArrayBufferLike
+	): T[] | Error {
+		const buffer = Buffer.from(bytes);
+		const items: T[] = [];
+		let offset: number = 0;
+		while (offset < buffer.byteLength) {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Invalid size marker. Expecting u64 (size ${u64.getSize()} bytes), but only ${
+						buffer.byteLength - offset
+					} bytes are left.`
+				);
+			}
+			const len: bigint = buffer.readBigUInt64LE(offset);
+			offset += u64.getSize();
+			if (len > BigInt(buffer.byteLength - offset)) {
+				return new Error(
+					`Invalid length of an item. Expecting ${len} bytes, but only ${
+						buffer.byteLength - offset
+					} bytes are left.`
+				);
+			}
+			if (len === BigInt(0)) {
+				items.push({} as T);
+				continue;
+			}
+			const target: Enum<T> = getter();
+			const error: Error | undefined = target.decode(
+				buffer.slice(offset, offset + Number(len))
+			);
+			if (error instanceof Error) {
+				return error;
+			}
+			items.push(target.get());
+			offset += Number(len);
+		}
+		return items;
+	}
+
 	private _value: Option<any> | undefined;
 
 	public setValue(opt: Option<any>): Error | undefined {
diff --git a/cli/src/protocol/render/typescript/static/protocol.validator.ts b/cli/src/protocol/render/typescript/static/protocol.validator.ts
index 8d8e068..d9b7373 100644
--- a/cli/src/protocol/render/typescript/static/protocol.validator.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.validator.ts
@@ -6,6 +6,7 @@ export interface IValidator {
 export interface IPropScheme {
 	prop: string;
 	optional?: boolean;
+	repeated?: boolean;
 	types?: Required<IValidator>;
 	options?: IPropScheme[];
 }
@@ -29,6 +30,21 @@ export function validate(obj: any, scheme: IPropScheme[]): Error | undefined {
 					return undefined;
 				}
 			} else if (property.options instanceof Array) {
+				if (property.repeated) {
+					if (!(obj[property.prop] instanceof Array)) {
+						return `Property "${property.prop}" should be an array, because it's array of enum`;
+					}
+					for (const item of obj[property.prop]) {
+						const err: Error | undefined = validate(
+							{ [property.prop]: item },
+							[{ prop: property.prop, options: property.options }]
+						);
+						if (err instanceof Error) {
+							return err.message;
+						}
+					}
+					return undefined;
+				}
 				if (
 					typeof obj[property.prop] !== "object" ||
 					obj[property.prop] === null
-- 
2.43.0


From 86976c75518aed9247d4dbc3d4186aa47e0b944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:08 +0000
Subject: [PATCH 45/47] fix: rust protocol: optional enum of a group, optional
 array of enums

---
 cli/src/protocol/render/rust/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index df46284..d5a0f0c 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -97,7 +97,11 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
+                        let mut type_str = self.get_type_ref(field);
+                        if field.repeated {
+                            type_str = format!("Vec::<{}>", type_str);
+                        }
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +116,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, type_str, field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
-- 
2.43.0


From c14c4f0a8918b76bd3c32c91a22eaaa4edbadb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:59 +0000
Subject: [PATCH 46/47] fix: a repeated confirmation of connection does not
 start a second handshake

A consumer in rust started one more handshake on each confirmation
message: during the handshake it ended the session because of the number
of the request being in use, after the handshake it reported 'connected'
once again. The consumer in typescript ignores such messages already.
---
 .../workflow/render/consumer/rust/render_consumer.rs   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 59353ca..7b59f54 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -542,9 +542,13 @@ where
                             let mut failure = buffer.chunk(&income, None).err();
                             loop {
                                     while let Some(msg) = buffer.next() {
-                                        if let protocol::AvailableMessages::InternalServiceGroup(
-                                            protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
-                                        ) = msg.msg {
+                                        // Handshake is done once in a session
+                                        if auth_task.is_none() && matches!(
+                                            msg.msg,
+                                            protocol::AvailableMessages::InternalServiceGroup(
+                                                protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(_)
+                                            )
+                                        ) {
                                             debug!(
                                                 target: logs::targets::CONSUMER,
                                                 "producer has been confirmed connection"
-- 
2.43.0


From c3d81c635c01903aaf0a00bf31cea6e4339b2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:58 +0000
Subject: [PATCH 47/47] fix: rust consumer: request of uuid at the end of a
 session doesn't fail the session

---
 .../workflow/render/consumer/rust/render_consumer.rs  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 7b59f54..28a9a9b 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -477,11 +477,12 @@ where
                 })?;
             }
             Channel::Uuid(tx_response) => {
-                tx_auth.send(Auth::GetUuid(tx_response)).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Uuid",
-                    ))
-                })?;
+                if tx_auth.send(Auth::GetUuid(tx_response)).is_err() {
+                    debug!(
+                        target: logs::targets::CONSUMER,
+                        "session is finishing; uuid isn't available anymore"
+                    );
+                }
             }
             Channel::Sequence(tx_response) => {
                 sequence += 1;
-- 
2.43.0

