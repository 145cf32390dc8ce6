From de988d864aca9635cdc1f86f484b5ff2dd0b8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 1/6] fix: report SRC_ERR_BAD_CHANNEL_COUNT instead of aborting
 for channels < 1

---
 src/samplerate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..2538919 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,14 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{
+		if (error)
+			*error = SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+	}
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From 73e56a61aa6fe0ccaf4c53d0decc3c22d57e90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 2/6] fix: reject NaN conversion ratios

---
 src/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..4d587ad 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,8 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	/* Written so that a NaN is bad as well. */
+	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From b181695f1dbbcecbec984f1b4f9e41da291d8d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 3/6] fix: linear converter read before data_in for one frame
 input blocks

---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From 184ba820a752ca490ee3cc896320c2f6f6cf1bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 4/6] fix: src_simple must report a NULL SRC_DATA instead of
 dereferencing it

---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2538919..37db958 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -412,6 +412,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0


From 82636da7c9f5e50f033bd88f177603ae26e7e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 5/6] fix: do not truncate the remaining input count to int in
 prepare_data

---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..d61bd72 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1189,7 +1189,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0


From 38cb0130bcc4fa751e37218fc0cdf2bfecfaf786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 6/6] fix: sinc end of input handling read before the history
 buffer after the ratio dropped

---
 src/src_sinc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index d61bd72..6d0fa07 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1207,8 +1207,9 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
-		{	/* If necessary, move data down to the start of the buffer. */
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5
+				&& filter->b_current > half_filter_chan_len)
+		{	/* If necessary (and possible), move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
 			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
 							(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
-- 
2.43.0

