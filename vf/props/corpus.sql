WITH c AS (SELECT a FROM [t.csv]) SELECT * FROM c
WITH c (x, y) AS (SELECT a, b FROM [t.csv]), d AS (SELECT * FROM c) SELECT * FROM d JOIN c ON d.x = c.x
CREATE TABLE [n.csv] (a int, b varchar(20) NOT NULL PRIMARY KEY)
DROP TABLE [t.csv]
ALTER TABLE [t.csv] ADD c int
TRUNCATE TABLE [t.csv]
INSERT INTO [t.csv] VALUES (1, 'x'), (2, 'y')
INSERT INTO [t.csv] (a, b) SELECT k, c FROM [u.csv]
INSERT [t.csv] DEFAULT VALUES
MERGE [t.csv] AS x USING [u.csv] AS y ON x.a = y.k WHEN MATCHED THEN UPDATE SET b = y.c WHEN NOT MATCHED THEN INSERT (a, b) VALUES (y.k, y.c);
SELECT a, ROW_NUMBER() OVER (PARTITION BY a ORDER BY b DESC) AS n FROM [t.csv]
SELECT SUM(CAST(a AS INT)) OVER (ORDER BY b ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM [t.csv]
SELECT RANK() OVER (ORDER BY a), LAG(a, 1) OVER (ORDER BY a) FROM [t.csv]
SELECT * FROM [t.csv] RIGHT JOIN [u.csv] ON a = k
SELECT * FROM [t.csv] x FULL OUTER JOIN [u.csv] y ON x.a = y.k
SELECT * FROM [t.csv] CROSS JOIN [u.csv]
SELECT * FROM [t.csv] x CROSS APPLY (SELECT TOP 1 * FROM [u.csv] WHERE k = x.a) z
SELECT * FROM [t.csv] x OUTER APPLY f(x.a) z
SELECT a FROM [t.csv] UNION SELECT k FROM [u.csv]
SELECT a FROM [t.csv] EXCEPT SELECT k FROM [u.csv]
SELECT a FROM [t.csv] INTERSECT SELECT k FROM [u.csv] UNION ALL SELECT 1
(SELECT a FROM [t.csv]) UNION ALL (SELECT k FROM [u.csv]) ORDER BY 1
SELECT TOP (50) PERCENT a FROM [t.csv] ORDER BY a
SELECT TOP (2) WITH TIES a FROM [t.csv] ORDER BY a
SELECT a FROM [t.csv] ORDER BY a OFFSET 1 ROWS FETCH NEXT 2 ROWS ONLY
SELECT a FROM [t.csv] GROUP BY ROLLUP(a)
SELECT a, b, COUNT(*) FROM [t.csv] GROUP BY a, b WITH CUBE
SELECT a FROM [t.csv] GROUP BY GROUPING SETS ((a), ())
SELECT * FROM [t.csv] PIVOT (COUNT(b) FOR a IN ([1], [2])) AS p
SELECT * FROM [t.csv] UNPIVOT (v FOR n IN (a, b)) AS p
SELECT a FROM [t.csv] FOR XML PATH('x')
SELECT a FROM [t.csv] FOR JSON AUTO
SELECT a FROM [t.csv] OPTION (RECOMPILE, MAXDOP 1)
SELECT a FROM [t.csv] WITH (NOLOCK) WHERE a = 1
SELECT a FROM [t.csv] TABLESAMPLE (10 PERCENT)
SELECT a FROM (VALUES (1), (2)) AS v(a)
SELECT x.a, y.* FROM [t.csv] AS x, [u.csv] AS y WHERE x.a = y.k
SELECT a AS [x y], 'lit' = b, c = a FROM [t.csv]
SELECT DISTINCT TOP 2 a, b FROM [t.csv] ORDER BY b DESC, 1 ASC
SELECT ALL a FROM [t.csv]
SELECT a FROM [t.csv] WHERE a BETWEEN 1 AND 2 AND b NOT BETWEEN 'a' AND 'z'
SELECT a FROM [t.csv] WHERE EXISTS (SELECT * FROM [u.csv] WHERE k = 1)
SELECT a FROM [t.csv] x WHERE EXISTS (SELECT * FROM [u.csv] WHERE k = x.a)
SELECT a FROM [t.csv] WHERE a > ALL (SELECT k FROM [u.csv])
SELECT a FROM [t.csv] WHERE a = ANY (SELECT k FROM [u.csv]) OR a = SOME (SELECT 1)
SELECT a FROM [t.csv] WHERE NOT (a = 1 OR NOT (b LIKE '%x' ESCAPE '\'))
SELECT CASE a WHEN 1 THEN 'x' WHEN 2 THEN 'y' ELSE 'z' END AS c FROM [t.csv]
SELECT CASE WHEN a = 1 THEN CASE WHEN b = 'x' THEN 1 END ELSE NULL END FROM [t.csv]
SELECT IIF(a = 1, 'x', 'y'), NULLIF(a, 1), COALESCE(a, b, 'c') FROM [t.csv]
SELECT TRY_CAST(a AS int), TRY_CONVERT(int, a), CONVERT(varchar(10), a, 101) FROM [t.csv]
SELECT CAST(a AS datetime), CAST(a AS decimal(10,2)), CAST(b AS nvarchar(max)) FROM [t.csv]
SELECT GETDATE(), DATEADD(day, 1, a), DATEDIFF(day, a, b), DATEPART(year, a), DATENAME(month, a) FROM [t.csv]
SELECT STUFF(b, 1, 1, 'q'), CHARINDEX('x', b, 1), REPLICATE(b, 3), REVERSE(b), SPACE(3), STR(a) FROM [t.csv]
SELECT SUBSTRING(b, 1, 1), LEFT(b, 1), RIGHT(b, 1), LTRIM(b), RTRIM(b), UPPER(b), LOWER(b), LEN(b), DATALENGTH(b), REPLACE(b, 'x', 'y') FROM [t.csv]
SELECT ABS(a), CEILING(a), FLOOR(a), ROUND(a, 1), POWER(a, 2), SQRT(a), SIGN(a), EXP(a), LOG(a), PI(), RAND() FROM [t.csv]
SELECT COUNT(*), COUNT(a), COUNT(DISTINCT a), SUM(a), AVG(a), MIN(a), MAX(a), STDEV(a), VAR(a), STRING_AGG(b, ',') FROM [t.csv]
SELECT @@ROWCOUNT, @@VERSION, @@IDENTITY, USER, CURRENT_TIMESTAMP, NEWID()
SELECT a COLLATE Latin1_General_CI_AS FROM [t.csv]
SELECT a AT TIME ZONE 'UTC' FROM [t.csv]
SELECT t.a.b.c FROM x.y.z.t
SELECT * FROM OPENROWSET(BULK 'x', SINGLE_CLOB) AS q
SELECT * FROM OPENJSON('{}')
SELECT a.value('.', 'int') FROM [t.csv]
SELECT $IDENTITY, $ROWGUID FROM [t.csv]
UPDATE [t.csv] SET a = 1, b = DEFAULT WHERE CURRENT OF c
UPDATE TOP (2) [t.csv] SET a = 1
UPDATE x SET a += 1, @v = b FROM [t.csv] x OUTPUT inserted.a
UPDATE [t.csv] SET b.WRITE('x', 0, 1)
DELETE TOP (2) FROM [t.csv]
DELETE FROM [t.csv] OUTPUT deleted.* WHERE a = 1
DELETE x FROM [t.csv] x JOIN [u.csv] y ON x.a = y.k WHERE y.c = 'p'
DECLARE @t TABLE (a int, b varchar(3)); INSERT INTO @t SELECT a, b FROM [t.csv]; SELECT * FROM @t
DECLARE @a int = 1, @b varchar(10) = 'x', @c float; SET @a = @a + 1; SELECT @a, @b, @c
DECLARE @a int; SELECT @a = a FROM [t.csv]; SELECT @a
DECLARE c CURSOR FOR SELECT a FROM [t.csv]; OPEN c; FETCH NEXT FROM c INTO @a; CLOSE c; DEALLOCATE c
DECLARE @x xml = '<a/>', @d datetime = '2020-01-01', @n decimal(10, 2) = 1.5
IF EXISTS (SELECT * FROM [t.csv]) SELECT 1 ELSE SELECT 2
IF @a = 1 BEGIN SELECT 1; SELECT 2 END ELSE IF @a = 2 SELECT 3 ELSE BEGIN SELECT 4 END
DECLARE @i int = 0; WHILE @i < 3 BEGIN SET @i += 1; IF @i = 2 CONTINUE; IF @i = 3 BREAK; SELECT @i END
BEGIN TRY SELECT 1 / 0 END TRY BEGIN CATCH SELECT ERROR_MESSAGE() END CATCH
BEGIN TRANSACTION; UPDATE [t.csv] SET a = 1; COMMIT; ROLLBACK
CREATE PROCEDURE p @a int AS BEGIN SELECT @a END
CREATE FUNCTION f (@a int) RETURNS int AS BEGIN RETURN @a + 1 END
CREATE VIEW v AS SELECT * FROM [t.csv]
CREATE INDEX i ON [t.csv] (a)
CREATE TRIGGER tr ON [t.csv] AFTER INSERT AS SELECT 1
EXEC p 1, 'x', @b = 2
EXECUTE ('SELECT 1')
PRINT 'hello'; RAISERROR('x', 16, 1); THROW 50000, 'x', 1
GOTO done; SELECT 1; done: SELECT 2
RETURN 1
WAITFOR DELAY '00:00:01'
USE master; GO SELECT 1 GO
SET NOCOUNT ON; SET ANSI_NULLS OFF; SET ROWCOUNT 5
GRANT SELECT ON [t.csv] TO u
BACKUP DATABASE d TO DISK = 'x'
SELECT * INTO #x FROM [t.csv]; SELECT * FROM #x; DELETE #x WHERE a = 1; SELECT COUNT(*) FROM #x
SELECT a INTO [new.csv] FROM [t.csv]; UPDATE [new.csv] SET a = 2; SELECT * FROM [new.csv]
SELECT __rownum, __rec FROM [t.csv]
SELECT __rownum AS n, a + __lf + b AS c FROM [t.csv] ORDER BY __rownum DESC
SELECT x.__rownum, y.__rec FROM [t.csv] x JOIN [u.csv] y ON x.a = y.k
SELECT MAX(__rownum) FROM [t.csv] GROUP BY a HAVING COUNT(*) > 1 ORDER BY 1
UPDATE [t.csv] SET b = __rownum, a = __rec
SELECT a FROM [t.csv] WHERE __rownum = 2 OR __rec LIKE '%x%'
SELECT z.c FROM (SELECT __rec AS c, __rownum AS n FROM [t.csv]) z WHERE z.n > 1
SELECT a, (SELECT MAX(k) FROM [u.csv]) AS m, (SELECT TOP 1 c FROM [u.csv] ORDER BY c DESC) AS d FROM [t.csv]
SELECT * FROM [t.csv] WHERE a IN (SELECT k FROM [u.csv] WHERE c IN (SELECT b FROM [t.csv])) AND (SELECT COUNT(*) FROM [u.csv]) > 1
SELECT q.n FROM (SELECT a, COUNT(*) AS n FROM [t.csv] GROUP BY a HAVING COUNT(*) >= 1) q LEFT JOIN (SELECT k FROM [u.csv] UNION ALL SELECT a FROM [t.csv]) w ON q.a = w.k ORDER BY q.n
SELECT __1, __2 FROM [t.csv]
SELECT * FROM [__stdin] x JOIN [t.csv] y ON x.a = y.a
