From 3f53439d5e20f2f0a90befd81f10ae9a3b14faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:09 +0000
Subject: [PATCH 01/27] fix: covariance of vectors: initialise the matrix in
 the orientation the update uses

---
 include/boost/accumulators/statistics/covariance.hpp          | 4 ++--
 include/boost/accumulators/statistics/weighted_covariance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/covariance.hpp b/include/boost/accumulators/statistics/covariance.hpp
index d80a85e..90abba4 100644
--- a/include/boost/accumulators/statistics/covariance.hpp
+++ b/include/boost/accumulators/statistics/covariance.hpp
@@ -123,8 +123,8 @@ namespace impl
         covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                 )
             )
         {
diff --git a/include/boost/accumulators/statistics/weighted_covariance.hpp b/include/boost/accumulators/statistics/weighted_covariance.hpp
index e423a22..f529cf0 100644
--- a/include/boost/accumulators/statistics/weighted_covariance.hpp
+++ b/include/boost/accumulators/statistics/weighted_covariance.hpp
@@ -66,9 +66,9 @@ namespace impl
         weighted_covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
                       * numeric::one<Weight>::value
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                       * numeric::one<Weight>::value
                 )
             )
-- 
2.43.0


From 661939a47e78c6cac4c3e84caf98ac409347902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:09 +0000
Subject: [PATCH 02/27] fix: rolling_window could not be extracted (extractor
 used before its declaration)

---
 include/boost/accumulators/statistics/rolling_window.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..787b2de 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -155,7 +155,9 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            // the extractor rolling_window_plus1 is declared below
+            return find_accumulator<tag::rolling_window_plus1>(args[accumulator]).result(args)
+                .advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From 1a40bfcef192503d1ae3677ba3d929e5f99365a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:15 +0000
Subject: [PATCH 03/27] fix: tail_quantile and tail_variate_means: a cache
 holding exactly the needed samples suffices

---
 include/boost/accumulators/statistics/tail_quantile.hpp      | 2 +-
 include/boost/accumulators/statistics/tail_variate_means.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..9618611 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( 0 < n && n <= static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..aeea8db 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -104,7 +104,7 @@ namespace impl
             this->tail_means_.resize(num_variates, Sample(0));
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if (n < static_cast<std::size_t>(tail(args).size()))
+            if (n <= static_cast<std::size_t>(tail(args).size()))
             {
                 this->tail_means_ = std::accumulate(
                     tail_variate(args).begin()
-- 
2.43.0


From 15c2712cb314578ea450cb062fde48b6f5f81e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:31 +0000
Subject: [PATCH 04/27] fix: coherent_tail_mean: subtract n/count on the left
 side too (operator precedence)

---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From b30fc44608a0c3a6d9a92fae57f91b2513ead68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:31 +0000
Subject: [PATCH 05/27] fix: (weighted_)tail_variate_means: do not read the
 first variate of an empty tail

---
 include/boost/accumulators/statistics/tail_variate_means.hpp    | 2 +-
 .../accumulators/statistics/weighted_tail_variate_means.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index aeea8db..a251b22 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -98,7 +98,7 @@ namespace impl
                 )
             );
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..ecf8552 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -149,7 +149,7 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
-- 
2.43.0


From 3e5bfc08dc33742571f898e364d5bd06a0535b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:31 +0000
Subject: [PATCH 06/27] fix: weighted_tail_variate_means: report NaN instead of
 looping forever when the cache is too small

---
 .../statistics/weighted_tail_variate_means.hpp        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index ecf8552..ea51a9a 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -120,6 +120,11 @@ namespace impl
             float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] );
 
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
+
+            this->tail_means_.clear();
+            this->tail_means_.resize(num_variates, Sample(0));
+
             std::size_t n = 0;
             Weight sum = Weight(0);
 
@@ -139,6 +144,7 @@ namespace impl
                           , this->tail_means_.end()
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,11 +155,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
-
-            this->tail_means_.clear();
-            this->tail_means_.resize(num_variates, Sample(0));
-
             this->tail_means_ = std::inner_product(
                 tail_variate(args).begin()
               , tail_variate(args).begin() + n
-- 
2.43.0


From dcfd89b006292e1e21870109e08d838df3135019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:19 +0000
Subject: [PATCH 07/27] fix: extended_p_square_quantile_quadratic with two
 probabilities read before the arrays

---
 .../accumulators/statistics/extended_p_square_quantile.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
index a4ac3cd..e5f78cb 100644
--- a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
+++ b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
@@ -128,7 +128,7 @@ namespace impl
             {
                 result_type res;
 
-                if (is_same<Impl2, linear>::value)
+                if (is_same<Impl2, linear>::value || this->probabilities.size() < 3) // a parabola needs three points
                 {
                     /////////////////////////////////////////////////////////////////////////////////
                     // LINEAR INTERPOLATION
-- 
2.43.0


From 9f9115727cac453e45d270c33c516345c6135f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 08/27] fix: weighted_p_square_cumulative_distribution:
 position of the last marker and desired positions were off by one cell

---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From b44073f702067ace92c942cecfa7b454d03c78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:29 +0000
Subject: [PATCH 09/27] fix: density-based (weighted_)median: restart the
 running sum on every recomputation

---
 include/boost/accumulators/statistics/median.hpp          | 1 +
 include/boost/accumulators/statistics/weighted_median.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..a32c805 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,6 +96,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = float_type(0);
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..23dd0ab 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -93,6 +93,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = float_type(0);
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
-- 
2.43.0


From bbbe31a32d10ed45d1b474acc5045da42b0efa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:29 +0000
Subject: [PATCH 10/27] fix: density-based (weighted_)median read past the
 histogram when the overflow bin holds the median

---
 include/boost/accumulators/statistics/median.hpp          | 4 +++-
 include/boost/accumulators/statistics/weighted_median.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index a32c805..966369a 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -104,7 +104,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * (1. - over);
+                // the overflow bin has no upper end
+                typename range_type::iterator next = it + 1 == histogram.end() ? it : it + 1;
+                this->median = it->first * over + next->first * ( 1. - over );
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 23dd0ab..ce359fd 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -101,7 +101,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                // the overflow bin has no upper end
+                typename range_type::iterator next = it + 1 == histogram.end() ? it : it + 1;
+                this->median = it->first * over + next->first * ( 1. - over );
             }
 
             return this->median;
-- 
2.43.0


From 3ae7663e0f62095b214cd7e79379ee71922e30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:29 +0000
Subject: [PATCH 11/27] fix: (weighted_)median from the cumulative
 distribution: interpolate in the cell where it crosses one half

---
 include/boost/accumulators/statistics/median.hpp      | 11 +++++++++--
 .../boost/accumulators/statistics/weighted_median.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 966369a..b9635fa 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -171,8 +171,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index ce359fd..3e17a6e 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -168,8 +168,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From 474b7e696c4c779e492e22b747e8dcef54182ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:09 +0000
Subject: [PATCH 12/27] fix: (weighted_)peaks_over_threshold: extracting the
 fit must not overwrite the accumulated sums

---
 .../statistics/peaks_over_threshold.hpp          | 14 +++++++-------
 .../statistics/weighted_peaks_over_threshold.hpp | 16 ++++++++--------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..b47a3a5 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,15 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -198,8 +198,8 @@ namespace impl
 
     private:
         std::size_t Nu_;                     // number of samples larger than threshold
-        mutable float_type mu_;              // mean of Nu_ largest samples
-        mutable float_type sigma2_;          // variance of Nu_ largest samples
+        float_type mu_;                      // sum of Nu_ largest samples
+        float_type sigma2_;                  // sum of squares of Nu_ largest samples
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..7ba2c95 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,15 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -124,9 +124,9 @@ namespace impl
 
     private:
         short sign_;                         // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;              // mean of samples above threshold
-        mutable float_type sigma2_;          // variance of samples above threshold
-        mutable float_type w_sum_;           // sum of weights of samples above threshold
+        float_type mu_;                      // weighted sum of samples above threshold
+        float_type sigma2_;                  // weighted sum of squares of samples above threshold
+        float_type w_sum_;                   // sum of weights of samples above threshold
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
-- 
2.43.0


From f3b9b13064961228fd35a1b6555928cce4f443f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:25 +0000
Subject: [PATCH 13/27] fix: (weighted_)peaks_over_threshold_prob: recompute
 the fit from the tail alone on every extraction

---
 .../statistics/peaks_over_threshold.hpp            | 14 ++++++++------
 .../statistics/weighted_peaks_over_threshold.hpp   | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index b47a3a5..3164227 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -246,7 +246,8 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
+                this->mu_ = float_type(0);
+                this->sigma2_ = float_type(0);
 
                 std::size_t cnt = count(args);
 
@@ -291,15 +292,16 @@ namespace impl
                     this->sigma2_ = numeric::fdiv(this->sigma2_, n);
                     this->sigma2_ -= this->mu_ * this->mu_;
 
-                    if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                    float_type threshold_probability = is_same<LeftRight, left>::value
+                      ? 1. - this->threshold_probability_ : this->threshold_probability_;
 
                     float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
                     float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
@@ -323,7 +325,7 @@ namespace impl
     private:
         mutable float_type mu_;                     // mean of samples above threshold u
         mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 7ba2c95..2416703 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -173,7 +173,8 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
+                this->mu_ = float_type(0);
+                this->sigma2_ = float_type(0);
 
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
@@ -217,15 +218,16 @@ namespace impl
                 this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
                 this->sigma2_ -= this->mu_ * this->mu_;
 
-                if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                float_type threshold_probability = is_same<LeftRight, left>::value
+                  ? 1. - this->threshold_probability_ : this->threshold_probability_;
 
                 float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
                 float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                this->is_dirty_ = false;
 
             }
 
@@ -236,7 +238,7 @@ namespace impl
         short sign_;                                // for left tail fitting, mirror the extreme values
         mutable float_type mu_;                     // mean of samples above threshold u
         mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
-- 
2.43.0


From b11148dfd8c2a18dac42006932561c87383136e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 14/27] fix: update a feature's dependencies first when their
 providers have dependencies of their own

---
 .../accumulators/framework/depends_on.hpp     | 47 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index e0036ac..d1a7cab 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_FRAMEWORK_DEPENDS_ON_HPP_EAN_28_10_2005
 
 #include <boost/version.hpp>
+#include <boost/mpl/at.hpp>
 #include <boost/mpl/end.hpp>
 #include <boost/mpl/map.hpp>
 #include <boost/mpl/set.hpp>
@@ -24,6 +25,7 @@
 #include <boost/mpl/identity.hpp>
 #include <boost/mpl/equal_to.hpp>
 #include <boost/mpl/contains.hpp>
+#include <boost/mpl/push_back.hpp>
 #include <boost/mpl/transform.hpp>
 #include <boost/mpl/is_sequence.hpp>
 #include <boost/mpl/placeholders.hpp>
@@ -404,6 +406,39 @@ namespace boost { namespace accumulators
         {
         };
 
+        // Append the feature that provides Feature in this set to a sequence, preceded
+        // by the features it depends on, unless the sequence already contains them.
+        template<typename FeatureMap, typename Weight>
+        struct append_with_dependencies
+        {
+            template<typename Sequence, typename Feature>
+            struct append
+              : mpl::push_back<
+                    typename mpl::fold<
+                        as_feature_list<typename Feature::dependencies, Weight>
+                      , Sequence
+                      , append_with_dependencies
+                    >::type
+                  , Feature
+                >
+            {
+            };
+
+            template<typename Sequence, typename Feature>
+            struct apply
+            {
+                typedef typename mpl::at<FeatureMap, typename feature_of<Feature>::type>::type provider;
+
+                typedef
+                    typename mpl::eval_if<
+                        mpl::contains<Sequence, provider>
+                      , mpl::identity<Sequence>
+                      , append<Sequence, provider>
+                    >::type
+                type;
+            };
+        };
+
         template<typename Features, typename Sample, typename Weight>
         struct make_accumulator_tuple
         {
@@ -445,10 +480,20 @@ namespace boost { namespace accumulators
                 >::type
             sorted_feature_vector;
 
+            // a feature need not be derived from what the provider of one of its
+            // dependencies depends on in turn (e.g. the weighted flavor of it)
+            typedef
+                typename mpl::fold<
+                    sorted_feature_vector
+                  , mpl::vector<>
+                  , append_with_dependencies<feature_map_with_dependencies, Weight>
+                >::type
+            ordered_feature_vector;
+
             // From the vector of features, construct a vector of accumulators
             typedef
                 typename mpl::transform<
-                    sorted_feature_vector
+                    ordered_feature_vector
                   , to_accumulator<mpl::_1, Sample, Weight>
                 >::type
             type;
-- 
2.43.0


From 1f728deb2a1ba956b201b134b39f8902a5c96459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:37 +0000
Subject: [PATCH 15/27] fix: rolling_window: save the window in one piece, so
 that text archives can load a wrapped one

---
 .../boost/accumulators/statistics/rolling_window.hpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 787b2de..70ec40f 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 
 #include <cstddef>
+#include <algorithm> // for copy
 #include <boost/version.hpp>
 #include <boost/assert.hpp>
 #include <boost/circular_buffer.hpp>
@@ -32,10 +33,12 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    // save in one piece: load() reads the elements in one piece, and not every
+    // archive lets two binary objects be read back as one
+    const typename circular_buffer<T>::pointer buff = new T[size];
+    std::copy(b.begin(), b.end(), buff);
+    ar.save_binary(buff, size*sizeof(T));
+    delete[] buff;
 }
 
 template <class Archive, class T>
-- 
2.43.0


From f7e2e678247e13b0aa3d18a56c3d0ac236b5e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:37 +0000
Subject: [PATCH 16/27] fix: tail_variate, tail_weights: make serialize
 accessible

---
 include/boost/accumulators/statistics/tail_variate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..b09aca9 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -70,6 +70,7 @@ namespace impl
             );
         }
 
+    public:
         // make this accumulator serializeable
         template<class Archive>
         void serialize(Archive & ar, const unsigned int file_version)
-- 
2.43.0


From ce5f8b197ae41827ce6578a1b1617fff905394d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:47 +0000
Subject: [PATCH 17/27] fix: weighted_peaks_over_threshold: serialize compiled
 for no archive and left out the weight sum

---
 .../statistics/weighted_peaks_over_threshold.hpp             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 2416703..ee0ef26 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -117,8 +117,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & fit_parameters_.template get<0>();
+            ar & fit_parameters_.template get<1>();
+            ar & fit_parameters_.template get<2>();
             ar & is_dirty_;
         }
 
-- 
2.43.0


From a4dd586595c074da1fb84bfea4b22e51fca89845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:18 +0000
Subject: [PATCH 18/27] fix: weighted accumulators: add the serialize that sets
 depending on them need

---
 .../accumulators/statistics/error_of_mean.hpp      |  4 ++++
 .../accumulators/statistics/weighted_kurtosis.hpp  |  4 ++++
 .../accumulators/statistics/weighted_mean.hpp      |  4 ++++
 .../accumulators/statistics/weighted_median.hpp    |  4 ++++
 .../statistics/weighted_peaks_over_threshold.hpp   | 14 ++++++++++++++
 .../accumulators/statistics/weighted_skewness.hpp  |  4 ++++
 .../accumulators/statistics/weighted_tail_mean.hpp |  4 ++++
 .../statistics/weighted_tail_quantile.hpp          |  4 ++++
 .../accumulators/statistics/weighted_variance.hpp  |  4 ++++
 9 files changed, 46 insertions(+)

diff --git a/include/boost/accumulators/statistics/error_of_mean.hpp b/include/boost/accumulators/statistics/error_of_mean.hpp
index 7cd923d..432f1c6 100644
--- a/include/boost/accumulators/statistics/error_of_mean.hpp
+++ b/include/boost/accumulators/statistics/error_of_mean.hpp
@@ -40,6 +40,10 @@ namespace impl
             extractor<Variance> const variance = {};
             return sqrt(numeric::fdiv(variance(args), count(args) - 1));
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_kurtosis.hpp b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
index 3fd4ed7..692e2d7 100644
--- a/include/boost/accumulators/statistics/weighted_kurtosis.hpp
+++ b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
@@ -70,6 +70,10 @@ namespace impl
                         * ( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    ) - 3.;
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_mean.hpp b/include/boost/accumulators/statistics/weighted_mean.hpp
index 3214af6..b27a1da 100644
--- a/include/boost/accumulators/statistics/weighted_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_mean.hpp
@@ -55,6 +55,10 @@ namespace impl
 
             return numeric::fdiv(some_weighted_sum(args), sum_of_weights(args));
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 3e17a6e..5628ff1 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -49,6 +49,10 @@ namespace impl
         {
             return weighted_p_square_quantile_for_median(args);
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index ee0ef26..86e9505 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -237,6 +237,20 @@ namespace impl
             return this->fit_parameters_;
         }
 
+        // make this accumulator serializeable
+        // TODO: do we need to split to load/save and verify that threshold did not change?
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            ar & mu_;
+            ar & sigma2_;
+            ar & threshold_probability_;
+            ar & fit_parameters_.template get<0>();
+            ar & fit_parameters_.template get<1>();
+            ar & fit_parameters_.template get<2>();
+            ar & is_dirty_;
+        }
+
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
         mutable float_type mu_;                     // mean of samples above threshold u
diff --git a/include/boost/accumulators/statistics/weighted_skewness.hpp b/include/boost/accumulators/statistics/weighted_skewness.hpp
index a3ac387..07b0145 100644
--- a/include/boost/accumulators/statistics/weighted_skewness.hpp
+++ b/include/boost/accumulators/statistics/weighted_skewness.hpp
@@ -66,6 +66,10 @@ namespace impl
                       * std::sqrt( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    );
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_mean.hpp b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
index bae8530..edb23d5 100644
--- a/include/boost/accumulators/statistics/weighted_tail_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
@@ -130,6 +130,10 @@ namespace impl
               , sum
             );
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..270d9aa 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -108,6 +108,10 @@ namespace impl
             // whereas the samples of the right tail are sorted in descending order
             return *(boost::begin(tail(args)) + n - 1);
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 } // namespace impl
 
diff --git a/include/boost/accumulators/statistics/weighted_variance.hpp b/include/boost/accumulators/statistics/weighted_variance.hpp
index f7d2b6e..a362391 100644
--- a/include/boost/accumulators/statistics/weighted_variance.hpp
+++ b/include/boost/accumulators/statistics/weighted_variance.hpp
@@ -52,6 +52,10 @@ namespace impl
             result_type tmp = some_mean(args);
             return accumulators::weighted_moment<2>(args) - tmp * tmp;
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     //! Iterative calculation of variance of weighted samples.
-- 
2.43.0


From dee0b06509f93b7efe7a26d6512aff5cf8198ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:39 +0000
Subject: [PATCH 19/27] fix: drop(): drop the dependencies of the accumulator
 that provides the feature

---
 include/boost/accumulators/framework/accumulator_set.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..9331f02 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,9 +430,8 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
+        // The dependencies are those of the accumulator that provides the feature
+        typedef typename the_accumulator::feature_tag the_feature;
 
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
-- 
2.43.0


From 2a97c44e9cd43020b62fb79ab41ab63f17cadf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 20/27] fix: tail: store the variates and weights of droppable
 tail variates

---
 include/boost/accumulators/statistics/tail.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/accumulators/statistics/tail.hpp b/include/boost/accumulators/statistics/tail.hpp
index 40dab37..292f93f 100644
--- a/include/boost/accumulators/statistics/tail.hpp
+++ b/include/boost/accumulators/statistics/tail.hpp
@@ -129,6 +129,14 @@ namespace detail
     {
     };
 
+    /// INTERNAL ONLY
+    ///
+    template<typename Feature, typename LeftRight>
+    struct is_tail_variate_feature<tag::droppable<Feature>, LeftRight>
+      : is_tail_variate_feature<Feature, LeftRight>
+    {
+    };
+
 } // namespace detail
 
 namespace impl
-- 
2.43.0


From d46544e9433b07383bb4f5af6dfefa8ff5da26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:41 +0000
Subject: [PATCH 21/27] fix: median estimators read outside the histogram while
 it is still empty

---
 include/boost/accumulators/statistics/median.hpp       |  8 +++++++-
 .../boost/accumulators/statistics/weighted_median.hpp  | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index b9635fa..50a43b8 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_MEDIAN_HPP_EAN_28_10_2005
 #define BOOST_ACCUMULATORS_STATISTICS_MEDIAN_HPP_EAN_28_10_2005
 
+#include <limits>
 #include <boost/mpl/placeholders.hpp>
 #include <boost/range/iterator_range.hpp>
 #include <boost/accumulators/framework/accumulator_base.hpp>
@@ -97,11 +98,16 @@ namespace impl
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
                 this->sum = float_type(0);
-                while (this->sum < 0.5 * cnt)
+                while (it != histogram.end() && this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
                     ++it;
                 }
+                // the histogram is empty until the cache of the density is full
+                if (it == histogram.begin() || this->sum < 0.5 * cnt)
+                {
+                    return this->median = std::numeric_limits<float_type>::quiet_NaN();
+                }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
                 // the overflow bin has no upper end
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 5628ff1..d44ad32 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_WEIGHTED_MEDIAN_HPP_EAN_28_10_2005
 #define BOOST_ACCUMULATORS_STATISTICS_WEIGHTED_MEDIAN_HPP_EAN_28_10_2005
 
+#include <limits>
 #include <boost/mpl/placeholders.hpp>
 #include <boost/range/iterator_range.hpp>
 #include <boost/accumulators/framework/accumulator_base.hpp>
@@ -98,11 +99,16 @@ namespace impl
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
                 this->sum = float_type(0);
-                while (this->sum < 0.5 * cnt)
+                while (it != histogram.end() && this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
                     ++it;
                 }
+                // the histogram is empty until the cache of the density is full
+                if (it == histogram.begin() || this->sum < 0.5 * cnt)
+                {
+                    return this->median = std::numeric_limits<float_type>::quiet_NaN();
+                }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
                 // the overflow bin has no upper end
@@ -168,7 +174,7 @@ namespace impl
 
                 range_type histogram = weighted_p_square_cumulative_distribution(args);
                 typename range_type::iterator it = histogram.begin();
-                while (it->second < 0.5)
+                while (it->second < 0.5 && it + 1 != histogram.end())
                 {
                     ++it;
                 }
-- 
2.43.0


From 4ab4f011121d0c1cc20d302ae479b57dccd6a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:52 +0000
Subject: [PATCH 22/27] fix: weighted_tail_quantile,
 (weighted_)peaks_over_threshold_prob: do not read before the tail when the
 threshold needs no sample

---
 include/boost/accumulators/statistics/peaks_over_threshold.hpp  | 2 +-
 .../accumulators/statistics/weighted_peaks_over_threshold.hpp   | 2 +-
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 3164227..16a46e3 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -259,7 +259,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n >= static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 86e9505..523956a 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -185,7 +185,7 @@ namespace impl
                 std::size_t n = 0;
                 Weight sum = Weight(0);
 
-                while (sum < threshold)
+                while (n == 0 || sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index 270d9aa..83bc081 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -81,7 +81,7 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
-            while (sum < threshold)
+            while (n == 0 || sum < threshold)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
                 {
-- 
2.43.0


From 2657f31b7dc04bab2ab8f9f38f76ebad687fdc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:52 +0000
Subject: [PATCH 23/27] fix: one<std::complex<T> > is 1, not 1+i

---
 include/boost/accumulators/numeric/functional/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/numeric/functional/complex.hpp b/include/boost/accumulators/numeric/functional/complex.hpp
index ea8c033..9d32482 100644
--- a/include/boost/accumulators/numeric/functional/complex.hpp
+++ b/include/boost/accumulators/numeric/functional/complex.hpp
@@ -60,7 +60,7 @@ namespace boost { namespace numeric
 
         template<typename T>
         std::complex<T> const one_complex<T>::value
-          = std::complex<T>(numeric::one<T>::value, numeric::one<T>::value);
+          = std::complex<T>(numeric::one<T>::value);
     }
 
     /// INTERNAL ONLY
-- 
2.43.0


From dc12db0bc5da855ffe6a29843559e6c4deafd6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:05 +0000
Subject: [PATCH 24/27] fix: order equal samples in a tail independently of
 extraction

With equal samples, extracting a tail between samples (which sorts the heap)
could change which variates and weights were kept or listed later.
---
 include/boost/accumulators/statistics/tail.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail.hpp b/include/boost/accumulators/statistics/tail.hpp
index 292f93f..ea0346d 100644
--- a/include/boost/accumulators/statistics/tail.hpp
+++ b/include/boost/accumulators/statistics/tail.hpp
@@ -268,7 +268,10 @@ namespace impl
 
             bool operator ()(std::size_t left, std::size_t right) const
             {
-                return predicate_type()(this->samples[left], this->samples[right]);
+                // Order equal samples by their index, so that the order does not
+                // depend on the state of the heap (which extraction changes).
+                return predicate_type()(this->samples[left], this->samples[right])
+                    || (left < right && !predicate_type()(this->samples[right], this->samples[left]));
             }
 
         private:
-- 
2.43.0


From c63f4157fa63f4040e785d1626138c0a7724aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:29 +0000
Subject: [PATCH 25/27] fix: construct accumulators in place, dependencies
 first

---
 .../accumulators/framework/depends_on.hpp     | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index d1a7cab..50960e6 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -226,13 +226,6 @@ namespace boost { namespace accumulators
         struct build_acc_list<First, Last, true>
         {
             typedef fusion::nil_ type;
-
-            template<typename Args>
-            static fusion::nil_
-            call(Args const &, First const&, Last const&)
-            {
-                return fusion::nil_();
-            }
         };
 
         template<typename First, typename Last>
@@ -246,12 +239,32 @@ namespace boost { namespace accumulators
                 typename fusion::result_of::value_of<First>::type
               , typename next_build_acc_list::type>
             type;
+        };
 
-            template<typename Args>
-            static type
-            call(Args const &args, First const& f, Last const& l)
+        ///////////////////////////////////////////////////////////////////////////
+        // build_acc_args
+        //   A list with a reference to the argument pack for each accumulator. The
+        //   list of accumulators is constructed from it in place and from the front,
+        //   so an accumulator finds those it depends on constructed already.
+        template<typename AccList, typename Args>
+        struct build_acc_args
+        {
+            typedef fusion::nil_ type;
+
+            static type call(Args const &)
             {
-                return type(args, next_build_acc_list::call(args, fusion::next(f), l));
+                return type();
+            }
+        };
+
+        template<typename Car, typename Cdr, typename Args>
+        struct build_acc_args<fusion::cons<Car, Cdr>, Args>
+        {
+            typedef fusion::cons<Args const &, typename build_acc_args<Cdr, Args>::type> type;
+
+            static type call(Args const &args)
+            {
+                return type(args, build_acc_args<Cdr, Args>::call(args));
             }
         };
 
@@ -267,17 +280,10 @@ namespace boost { namespace accumulators
         }
 
         template<typename Sequence, typename Args>
-        typename meta::make_acc_list<Sequence>::type
-        make_acc_list(Sequence &seq, Args const &args)
-        {
-            return meta::make_acc_list<Sequence>::call(args, fusion::begin(seq), fusion::end(seq));
-        }
-
-        template<typename Sequence, typename Args>
-        typename meta::make_acc_list<Sequence>::type
-        make_acc_list(Sequence const &seq, Args const &args)
+        typename build_acc_args<typename meta::make_acc_list<Sequence>::type, Args>::type
+        make_acc_list(Sequence const &, Args const &args)
         {
-            return meta::make_acc_list<Sequence const>::call(args, fusion::begin(seq), fusion::end(seq));
+            return build_acc_args<typename meta::make_acc_list<Sequence>::type, Args>::call(args);
         }
 
         ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0fb6169353faa888bf45265de7ee7ac2baa1ce22 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:20:34 +0000
Subject: [PATCH 26/27] fix: pass arguments given as rvalues on to the
 accumulators as lvalues

All the accumulators in a set see the same named arguments. One given as an
rvalue was handed to each of them as an rvalue, so that the first to store it
left the others with a moved-from object.
---
 .../framework/accumulator_set.hpp             | 58 ++++++++++++++++---
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index 9331f02..61da091 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -21,7 +21,12 @@
 #include <boost/type_traits/remove_const.hpp>
 #include <boost/type_traits/remove_reference.hpp>
 #include <boost/core/enable_if.hpp>
+#include <boost/parameter/keyword.hpp>
 #include <boost/parameter/is_argument_pack.hpp>
+#include <boost/parameter/aux_/tag.hpp>
+#include <boost/parameter/aux_/tagged_argument.hpp>
+#include <boost/preprocessor/repetition/enum.hpp>
+#include <boost/preprocessor/repetition/enum_trailing.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/repetition/enum_binary_params.hpp>
@@ -76,6 +81,40 @@ namespace detail
         return accumulator_visitor<Args>(args);
     }
 
+    ///////////////////////////////////////////////////////////////////////////////
+    // shared_arg
+    //   all the accumulators in a set see the same arguments, so none of them may
+    //   move from one: pass a named argument given as an rvalue on as an lvalue
+    template<typename Arg>
+    inline Arg const &shared_arg(Arg const &arg)
+    {
+        return arg;
+    }
+
+#ifdef BOOST_PARAMETER_HAS_PERFECT_FORWARDING
+    template<typename Keyword, typename Arg>
+    inline typename parameter::aux::tag<Keyword, Arg const &>::type
+    shared_arg(parameter::aux::tagged_argument_rref<Keyword, Arg> const &arg)
+    {
+        Arg const &value = arg[parameter::keyword<Keyword>::get()];
+        return parameter::keyword<Keyword>::get() = value;
+    }
+
+#ifdef BOOST_PARAMETER_CAN_USE_MP11
+    template<typename Keyword, typename Arg>
+    inline typename parameter::aux::tag<Keyword, Arg const &>::type
+    shared_arg(
+        parameter::aux::tagged_argument_list_of_1<
+            parameter::aux::tagged_argument_rref<Keyword, Arg>
+        > const &arg
+    )
+    {
+        Arg const &value = arg[parameter::keyword<Keyword>::get()];
+        return parameter::keyword<Keyword>::get() = value;
+    }
+#endif
+#endif
+
     ///////////////////////////////////////////////////////////////////////////////
     // accumulator_set_base
     struct accumulator_set_base
@@ -125,6 +164,11 @@ namespace detail
 #pragma warning(disable: 4355) // warning C4355: 'this' : used in base member initializer list
 #endif
 
+/// INTERNAL ONLY
+///
+#define BOOST_ACCUMULATORS_SHARED_ARG(z, n, _)                                          \
+    boost::accumulators::detail::shared_arg(a ## n)
+
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief A set of accumulators.
 ///
@@ -195,7 +239,7 @@ struct accumulator_set
     ) : accumulators(
             detail::make_acc_list(
                 accumulators_mpl_vector()
-              , (boost::accumulators::accumulator = *this, a1)
+              , (boost::accumulators::accumulator = *this, detail::shared_arg(a1))
             )
         )
     {
@@ -248,7 +292,7 @@ struct accumulator_set
                 accumulators_mpl_vector()                                               \
               , (                                                                       \
                     boost::accumulators::accumulator = *this                            \
-                    BOOST_PP_ENUM_TRAILING_PARAMS_Z(z, n, a)                            \
+                    BOOST_PP_ENUM_TRAILING(n, BOOST_ACCUMULATORS_SHARED_ARG, _)         \
                 )                                                                       \
             )                                                                           \
         )                                                                               \
@@ -270,7 +314,7 @@ struct accumulator_set
                 accumulators_mpl_vector()                                               \
               , (                                                                       \
                     boost::accumulators::accumulator = *this                            \
-                  , boost::accumulators::sample = BOOST_PP_ENUM_PARAMS_Z(z, n, a)       \
+                  , boost::accumulators::sample = BOOST_PP_ENUM(n, BOOST_ACCUMULATORS_SHARED_ARG, _)\
                 )                                                                       \
             )                                                                           \
         )                                                                               \
@@ -353,7 +397,7 @@ struct accumulator_set
             detail::make_accumulator_visitor(                                           \
                 (                                                                       \
                     boost::accumulators::accumulator = *this                            \
-                    BOOST_PP_ENUM_TRAILING_PARAMS_Z(z, n, a)                            \
+                    BOOST_PP_ENUM_TRAILING(n, BOOST_ACCUMULATORS_SHARED_ARG, _)         \
                 )                                                                       \
             )                                                                           \
         );                                                                              \
@@ -371,7 +415,7 @@ struct accumulator_set
             detail::make_accumulator_visitor(                                           \
                 (                                                                       \
                     boost::accumulators::accumulator = *this                            \
-                  , boost::accumulators::sample = BOOST_PP_ENUM_PARAMS_Z(z, n, a)       \
+                  , boost::accumulators::sample = BOOST_PP_ENUM(n, BOOST_ACCUMULATORS_SHARED_ARG, _)\
                 )                                                                       \
             )                                                                           \
         );                                                                              \
@@ -511,7 +555,7 @@ extract_result(AccumulatorSet const &acc)
         return find_accumulator<Feature>(acc).result(                       \
             (                                                               \
                 boost::accumulators::accumulator = acc                      \
-                BOOST_PP_ENUM_TRAILING_PARAMS_Z(z, n, a)                    \
+                BOOST_PP_ENUM_TRAILING(n, BOOST_ACCUMULATORS_SHARED_ARG, _) \
             )                                                               \
         );                                                                  \
     }                                                                       \
@@ -532,7 +576,7 @@ extract_result(AccumulatorSet const &acc)
     {                                                                       \
         return find_accumulator<Feature>(acc).result((                      \
             boost::accumulators::accumulator = acc                          \
-          , boost::accumulators::sample = BOOST_PP_ENUM_PARAMS_Z(z, n, a)   \
+          , boost::accumulators::sample = BOOST_PP_ENUM(n, BOOST_ACCUMULATORS_SHARED_ARG, _)\
         ));                                                                 \
     }
 
-- 
2.43.0


From 11c3fc9fd01420c2deaae23eadde937e61310e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 27/27] fix: initialise the cached median, which saving a set
 writes out

The medians based on the density and on the P-square cumulative distribution
left the cached result uninitialised until the first extraction, and serialize
writes it.
---
 include/boost/accumulators/statistics/median.hpp          | 2 ++
 include/boost/accumulators/statistics/weighted_median.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 50a43b8..1e6aa84 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -78,6 +78,7 @@ namespace impl
         with_density_median_impl(Args const &args)
           : sum(numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , is_dirty(true)
+          , median()
         {
         }
 
@@ -156,6 +157,7 @@ namespace impl
 
         with_p_square_cumulative_distribution_median_impl(dont_care)
           : is_dirty(true)
+          , median()
         {
         }
 
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index d44ad32..fa4096d 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -80,6 +80,7 @@ namespace impl
         with_density_weighted_median_impl(Args const &args)
           : sum(numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , is_dirty(true)
+          , median()
         {
         }
 
@@ -157,6 +158,7 @@ namespace impl
 
         with_p_square_cumulative_distribution_weighted_median_impl(dont_care)
           : is_dirty(true)
+          , median()
         {
         }
 
-- 
2.43.0

